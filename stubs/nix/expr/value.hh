// Stand-in for the Nix C++ header of the same name.  nixd's controller only
// includes it transitively and uses nothing of it, so it is left empty.
#pragma once
