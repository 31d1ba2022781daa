// A plugin, see plugkit.
package main

import "github.com/vivint/rothko/database/files/zzverif/plugkit"

func init() { plugkit.Register("a") }
