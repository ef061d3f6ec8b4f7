#define PDAAAL_VERSION_STR "0"
#define PDAAAL_GIT_HASH_STR "0"
