#include "vp_monitor.h"
void vp_cycle_hook() {}
bool vp_commit_hook(bool) { return false; }
void vp_write_extra(std::FILE *) {}
