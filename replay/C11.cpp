#include "htn.h"
void kv_main() { ht::run_all(); }
