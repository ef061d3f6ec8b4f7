#include <ptrie/ptrie_map.h>
