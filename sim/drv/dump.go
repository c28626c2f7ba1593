package main

import (
	"fmt"
	"os"
)

// dump writes the files of a filing and its reference answers.
func dump(c *Case, dir string) {
	x := &Exec{c: c}
	d := x.disk()
	dk := diskKey(d)
	out := mute()
	os.MkdirAll(dir, 0755)
	for _, f := range x.filings() {
		for n, b := range f.Files {
			os.MkdirAll(dir+"/"+f.Spec.ID+"/tax", 0755)
			os.WriteFile(dir+"/"+f.Spec.ID+"/"+n, b, 0644)
		}
		tg := x.targets(d, dk, f)
		for _, k := range sortedKeys(tg) {
			for i, u := range tg[k] {
				a := x.cold(d, dk, u)
				fmt.Fprintln(out, u, a)
				os.WriteFile(fmt.Sprintf("%s/%s/ANS-%s%d", dir, f.Spec.ID, k, i), a.Body, 0644)
			}
		}
	}
}
