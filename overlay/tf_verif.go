package tf

import "github.com/lyraproj/dgo/internal"

// VerifResetDefaultAliases makes the default aliases what they are when the program starts
func VerifResetDefaultAliases() { internal.ResetDefaultAliases() }
