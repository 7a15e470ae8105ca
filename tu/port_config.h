// Generated stand-in for port/port_config.h with the values the real build
// configures on this platform (checks do not depend on /repo/_build).
#ifndef VERIF_PORT_CONFIG_H_
#define VERIF_PORT_CONFIG_H_
#define HAVE_FDATASYNC 1
#define HAVE_FULLFSYNC 0
#define HAVE_O_CLOEXEC 1
#define HAVE_CRC32C 0
#define HAVE_SNAPPY 0
#endif
