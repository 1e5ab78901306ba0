package h

import (
	_ "github.com/tc-hib/winres"
	_ "github.com/tc-hib/winres/version"
	_ "winresverif/model"
)
