/*
 * Autogenerated by the Meson build system.
 * Do not edit, your changes will be lost.
 */

#pragma once

#define DEFAULT_LIBDIR "/usr/local/lib/x86_64-linux-gnu/lighttpd-2.0.0"

#define DEFAULT_LIBEXECDIR "/usr/local/libexec"

#define DEFAULT_LUADIR "/usr/local/share/lighttpd2/lua"

#define HAVE_ACCEPT4 1

#define HAVE_BZIP 1

#define HAVE_CRYPT_H 1

#define HAVE_CRYPT_R 1

#define HAVE_GETRLIMIT 1

#define HAVE_GMTIME_R 1

#define HAVE_INET_ATON 1

#define HAVE_INET_NTOP 1

#define HAVE_INTTYPES_H 1

#define HAVE_IPV6 1

#define HAVE_LIBUNWIND 1

#define HAVE_LOCALTIME_R 1

#define HAVE_LUA_H 1

#define HAVE_MADVISE 1

#define HAVE_MMAP 1

#define HAVE_POSIX_FADVISE 1

#define HAVE_SENDFILE 1

#define HAVE_SENDFILE64 1

#define HAVE_SOCKADDR_STORAGE 1

#define HAVE_STDDEF_H 1

#define HAVE_STDINT_H 1

#define HAVE_SYS_MMAN_H 1

#define HAVE_SYS_RESOURCE_H 1

#define HAVE_SYS_SENDFILE_H 1

#define HAVE_SYS_TYPES_H 1

#define HAVE_SYS_UIO_H 1

#define HAVE_SYS_UN_H 1

#define HAVE_UNISTD_H 1

#define HAVE_WRITEV 1

#define HAVE_ZLIB 1

#define PACKAGE_NAME "lighttpd"

#define PACKAGE_VERSION "2.0.0"

