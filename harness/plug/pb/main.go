// A plugin, see plugkit. It also replaces a kind that is built in, and the
// logger and monitor.
package main

import "github.com/vivint/rothko/database/files/zzverif/plugkit"

func init() {
	plugkit.Register("b")
	plugkit.RegisterGraphite("b")
	plugkit.Externals("b")
}
