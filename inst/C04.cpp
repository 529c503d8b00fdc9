#include <amtl/am-float.h>
extern "C" {
bool c04_nanf(float v) { return ke::IsNaN(v); }
bool c04_nand(double v) { return ke::IsNaN(v); }
bool c04_inff(float v) { return ke::IsInfinite(v); }
bool c04_infd(double v) { return ke::IsInfinite(v); }
float c04_modf(float a, float b) { return ke::FloatModulo(a, b); }
double c04_modd(double a, double b) { return ke::FloatModulo(a, b); }
}
