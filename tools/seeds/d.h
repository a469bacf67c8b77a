#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <errno.h>
#include <sys/mman.h>
#define MUST(x) do { if (!(x)) { fprintf(stderr, "demo: line %d: %s does not hold\n", __LINE__, #x); exit(1); } } while (0)
