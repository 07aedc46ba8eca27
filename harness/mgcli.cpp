// the command line program, with its main under another name
#include "stdafx.h"
#define main mg_cli_main
#include "mp4info.cpp"
