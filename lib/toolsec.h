/* Put first into a tool's source: its variables go into sections of their own (lib/tool.hpp). */
#pragma clang section bss="toolbss" data="tooldata"
