package main

import (
	_ "verifharness/facade"
	_ "verifharness/fam4"
	_ "verifharness/fam6"
)
