#pragma once
#include "h.h"
static const int LV[] = {SH_INFO, SH_DEBUG, SH_WARN, SH_ERR, SH_FUN, SH_DB};
static const char *MARK[] = {"[\033[34m-\033[0m]", "[\033[91m^\033[0m]", "[\033[33m!\033[0m]", "[\033[31mx\033[0m]", "[\033[36m~\033[0m]", "[\033[35m~\033[0m]"};
static const char *WHEN = "Feb 03 04:05:06 ";
static int stream_of(int l) { return l == SH_ERR ? 2 : 1; }
static str line(int l, const str &m) { return str(WHEN) + MARK[l] + " " + m + "\n"; }
