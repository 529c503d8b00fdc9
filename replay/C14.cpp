#include "htn.h"
void kv_main() { ht::huge(); ht::run_all(); }
