// Package snet stands in for the listening side of package net. A listener only holds an address;
// the clients of the driver reach the server itself.
package snet

import (
	"context"
	"net"

	"ecksbee.com/telefacts/vsim"
)

type addr struct{ network, address string }

func (a addr) Network() string { return a.network }
func (a addr) String() string  { return a.address }

type listener struct {
	addr addr
	stop chan struct{}
	shut bool
}

func (l *listener) Accept() (net.Conn, error) {
	vsim.Recv((<-chan struct{})(l.stop))
	return nil, net.ErrClosed
}

func (l *listener) Close() error {
	if l.shut {
		return net.ErrClosed
	}
	l.shut = true
	vsim.Close(l.stop)
	return nil
}

func (l *listener) Addr() net.Addr { return l.addr }

func Listen(network, address string) (net.Listener, error) {
	vsim.Yield()
	return &listener{addr: addr{network, address}, stop: vsim.MakeChan[struct{}](0)}, nil
}

type ListenConfig struct{}

func (ListenConfig) Listen(ctx context.Context, network, address string) (net.Listener, error) {
	return Listen(network, address)
}
