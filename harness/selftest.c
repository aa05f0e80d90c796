#include "refcsa.h"
#include <stdio.h>
int main(void)
{
  int r = ref_selftest();
  printf("reference model self-test: %s\n", r ? "FAILED" : "ok");
  return r;
}
