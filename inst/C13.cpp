#include "ht.h"
