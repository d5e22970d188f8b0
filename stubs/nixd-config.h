#pragma once
#define NIXD_VERSION "sim"
#define NIXD_LIBEXEC "/sim/libexec"
