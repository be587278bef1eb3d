/* config.h.  Generated from config.h.in by configure.  */
/* config.h.in.  Generated from configure.ac by autoheader.  */

/* Define to 1 if you have the <dlfcn.h> header file. */
#define HAVE_DLFCN_H 1

/* Define to 1 if you have the <endian.h> header file. */
#define HAVE_ENDIAN_H 1

/* Define to 1 if you have the <event2/event.h> header file. */
#define HAVE_EVENT2_EVENT_H 1

/* Define to 1 if you have the <event2/thread.h> header file. */
#define HAVE_EVENT2_THREAD_H 1

/* Define to 1 if you have the <gnutls/gnutls.h> header file. */
/* #undef HAVE_GNUTLS_GNUTLS_H */

/* BSD-style struct sockaddr_in6 present */
/* #undef HAVE_INET_IN6_BSD */

/* Linux-style struct sockaddr_in6 present */
#define HAVE_INET_IN6_LINUX 1

/* Musl-style struct sockaddr_in6 present */
/* #undef HAVE_INET_IN6_MUSL */

/* Define to 1 if you have the <inttypes.h> header file. */
#define HAVE_INTTYPES_H 1

/* Define to 1 if you have the <iostream> header file. */
/* #undef HAVE_IOSTREAM */

/* Define to 1 if you have the <jemalloc/jemalloc.h> header file. */


/* Have native SystemD/journald logging */
#define HAVE_JOURNALD 1

/* Define to 1 if you have the <json-c/json_object.h> header file. */
#define HAVE_JSON_C_JSON_OBJECT_H 1

/* Define to 1 if you have the <json-c/json_object_iterator.h> header file. */
#define HAVE_JSON_C_JSON_OBJECT_ITERATOR_H 1

/* Define to 1 if you have the <json-c/json_tokener.h> header file. */
#define HAVE_JSON_C_JSON_TOKENER_H 1

/* Define to 1 if you have the <json-c/json_util.h> header file. */
#define HAVE_JSON_C_JSON_UTIL_H 1

/* Define to 1 if you have the `event' library (-levent). */
#define HAVE_LIBEVENT 1

/* Define to 1 if you have the `event_pthreads' library (-levent_pthreads). */
#define HAVE_LIBEVENT_PTHREADS 1

/* Define to 1 if you have the `gnutls' library (-lgnutls). */
/* #undef HAVE_LIBGNUTLS */

/* Define to 1 if you have the `jemalloc' library (-ljemalloc). */


/* Define to 1 if you have the `json-c' library (-ljson-c). */
#define HAVE_LIBJSON_C 1

/* Define to 1 if you have the `nghttp2' library (-lnghttp2). */
#define HAVE_LIBNGHTTP2 1

/* Define to 1 if you have the `nghttp3' library (-lnghttp3). */
/* #undef HAVE_LIBNGHTTP3 */

/* Define to 1 if you have the `ngtcp2' library (-lngtcp2). */
/* #undef HAVE_LIBNGTCP2 */

/* Define to 1 if you have the `ngtcp2_crypto_gnutls' library
   (-lngtcp2_crypto_gnutls). */
/* #undef HAVE_LIBNGTCP2_CRYPTO_GNUTLS */

/* LibreSSL libtls found */
/* #undef HAVE_LIBRESSL_LIBTLS */

/* Define to 1 if you have the <libressl/tls.h> header file. */
/* #undef HAVE_LIBRESSL_TLS_H */

/* Define to 1 if you have the `systemd' library (-lsystemd). */
#define HAVE_LIBSYSTEMD 1

/* Define to 1 if you have the `usb' library (-lusb). */
/* #undef HAVE_LIBUSB */

/* Define to 1 if you have the `z' library (-lz). */
#define HAVE_LIBZ 1

/* Define to 1 if you have the <linux/un.h> header file. */
#define HAVE_LINUX_UN_H 1

/* Have lua.h in either include path set in CFLAGS or in root include
   directory */
#define HAVE_LUA_H 1

/* Define to 1 if MySQL libraries are available */
#define HAVE_MYSQL 1

/* Define to 1 if you have the <nghttp2/nghttp2.h> header file. */
#define HAVE_NGHTTP2_NGHTTP2_H 1

/* Define to 1 if you have the <nghttp3/nghttp3.h> header file. */
/* #undef HAVE_NGHTTP3_NGHTTP3_H */

/* Define to 1 if you have the <ngtcp2/ngtcp2.h> header file. */
/* #undef HAVE_NGTCP2_NGTCP2_H */

/* Define to 1 if you have the <openssl/crypto.h> header file. */
#define HAVE_OPENSSL_CRYPTO_H 1

/* Define to 1 if you have the <openssl/err.h> header file. */
#define HAVE_OPENSSL_ERR_H 1

/* Define to 1 if you have the <openssl/evp.h> header file. */
#define HAVE_OPENSSL_EVP_H 1

/* Define to 1 if you have the <openssl/rand.h> header file. */
#define HAVE_OPENSSL_RAND_H 1

/* Define to 1 if you have the <openssl/sha.h> header file. */
#define HAVE_OPENSSL_SHA_H 1

/* Define to 1 if you have the <pthread.h> header file. */
#define HAVE_PTHREAD_H 1

/* Define to 1 if you have the <stdint.h> header file. */
#define HAVE_STDINT_H 1

/* Define to 1 if you have the <stdio.h> header file. */
#define HAVE_STDIO_H 1

/* Define to 1 if you have the <stdlib.h> header file. */
#define HAVE_STDLIB_H 1

/* Define to 1 if you have the `strcasestr' function. */
#define HAVE_STRCASESTR 1

/* Define to 1 if you have the <strings.h> header file. */
#define HAVE_STRINGS_H 1

/* Define to 1 if you have the <string.h> header file. */
#define HAVE_STRING_H 1

/* Define to 1 if you have the `strlcpy' function. */
#define HAVE_STRLCPY 1

/* Define to 1 if you have the <sys/stat.h> header file. */
#define HAVE_SYS_STAT_H 1

/* Define to 1 if you have the <sys/types.h> header file. */
#define HAVE_SYS_TYPES_H 1

/* Define to 1 if you have the <sys/un.h> header file. */
#define HAVE_SYS_UN_H 1

/* Define to 1 if you have the <tls.h> header file. */
/* #undef HAVE_TLS_H */

/* Define to 1 if you have the <unistd.h> header file. */
#define HAVE_UNISTD_H 1

/* Define to 1 if you have the <usb.h> header file. */
/* #undef HAVE_USB_H */

/* Define to 1 if you have the `vasprintf' function. */
#define HAVE_VASPRINTF 1

/* Define to 1 if you have the `vsnprintf' function. */
#define HAVE_VSNPRINTF 1

/* Define to 1 if you have the <zlib.h> header file. */
#define HAVE_ZLIB_H 1

/* Define to the sub-directory where libtool stores uninstalled libraries. */
#define LT_OBJDIR ".libs/"

/* "Use OpenSSL version >= 1.1.0" */
#define OPENSSL_API_COMPAT 0x10100000L

/* Name of package */
#define PACKAGE "read-route-record"

/* Define to the address where bug reports for this package should be sent. */
#define PACKAGE_BUGREPORT ""

/* Define to the full name of this package. */
#define PACKAGE_NAME "Read Route Record"

/* Define to the full name and version of this package. */
#define PACKAGE_STRING "Read Route Record 1.37-1"

/* Define to the one symbol short name of this package. */
#define PACKAGE_TARNAME "read-route-record"

/* Define to the home page for this package. */
#define PACKAGE_URL ""

/* Define to the version of this package. */
#define PACKAGE_VERSION "1.37-1"

/* Full version */
#define RRR_CONFIG_VERSION "1.37-1"

/* Major version */
#define RRR_CONFIG_VERSION_MAJOR 1

/* Minor version */
#define RRR_CONFIG_VERSION_MINOR 37

/* Revision number */
#define RRR_CONFIG_VERSION_REVISION 1

/* Enable database testing in test suite */
/* #undef RRR_ENABLE_DB_TESTING */

/* Enable timestamps in log messages printed to standard output */
/* #undef RRR_ENABLE_LOG_TIMESTAMPS */

/* Enable printf logging for all log messages */
/* #undef RRR_ENABLE_PRINTF_LOGGING */

/* Use linux/limits.h to find PATH_MAX */
#define RRR_HAS_PATH_MAX_IN_LINUX_LIMITS_H 1

/* Have get peer certificate with and without reference incrementing */
#define RRR_HAVE_GET1_PEER_CERTIFICATE 1

/* Linux-specific gettid() is present */
#define RRR_HAVE_GETTID 1

/* Use Linux style IP_PKTINFO */
#define RRR_HAVE_IP_PKTINFO 1

/* We have json-c json_object_new_null */
#define RRR_HAVE_JSONC_NEW_NULL 1

/* We have json-c json_object_new_uint64 */
#define RRR_HAVE_JSONC_NEW_UINT64 1

/* json_object_object_add is of void type */
/* #undef RRR_HAVE_JSONC_OBJECT_ADD_VOID */

/* Have libbsd */
#define RRR_HAVE_LIBBSD 1

/* Have new style thread lock */
#define RRR_HAVE_NEW_OPENSSL_LOCK 1

/* Have pthread_setname_np */
#define RRR_HAVE_PTHREAD_SETNAME_NP 1

/* Have setproctitle */
#define RRR_HAVE_SETPROCTITLE 1

/* Have setproctitle_init */
#define RRR_HAVE_SETPROCTITLE_INIT 1

/* LibreSSL tls.h is present and is not in a subfolder */
/* #undef RRR_HAVE_TLS_H */

/* LibreSSL tls.h is present and is in a subfolder */
/* #undef RRR_HAVE_TLS_H_SUBFOLDER */

/* Have BackingStore for ArrayBuffer */
/* #undef RRR_HAVE_V8_BACKINGSTORE */

/* Have FixedArray in ResolveModuleCallback */
/* #undef RRR_HAVE_V8_FIXEDARRAY_IN_RESOLVEMODULECALLBACK */

/* Have MemorySpan in CreateSyntheticModule */
/* #undef RRR_HAVE_V8_MEMORYSPAN_IN_CSM */

/* Have primitive arguments to ScriptOrigin */
/* #undef RRR_HAVE_V8_PRIMITIVE_ARGS_TO_SCRIPTORIGIN */

/* Have primitive arguments to ScriptOrigin without isolate */
/* #undef RRR_HAVE_V8_PRIMITIVE_ARGS_TO_SCRIPTORIGIN_WITHOUT_ISOLATE */

/* Type for Lua integers */
#define RRR_LUA_INTTYPE long long int

/* Printf format for Lua integers */
#define RRR_LUA_INTTYPE_PRI lli

/* MIME type of RRR message */
#define RRR_MESSAGE_MIME_TYPE "application/rrr-message"

/* Python3 PyTypeObject has .tp_print member (version <= 3.8) */
/* #undef RRR_PYTHON3_HAS_PTYPEOBJECT_TP_PRINT */

/* Default run directory for sockets */
#define RRR_RUN_DIR "/run/rrr"

/* Socket name prefix for RRR stats socket */
#define RRR_STATS_SOCKET_PREFIX "rrr_stats"

/* Temporary directory */
#define RRR_TMP_PATH "/tmp"

/* Maximum size of blob type in type arrays */
#define RRR_TYPE_MAX_BLOB_LENGTH 1024

/* Enable C++ */
/* #undef RRR_WITH_CXX */

/* Enable FreeBSD-style input device control */
/* #undef RRR_WITH_FREEBSD_INPUT */

/* Compile with GnuTLS bindings */
/* #undef RRR_WITH_GNUTLS */

/* Enable RRR GNU Debug (compat functions always enabled) */
/* #undef RRR_WITH_GNU_DEBUG */

/* Compile with NGHTTP3 bindings */
/* #undef RRR_WITH_HTTP3 */

/* Enable jemalloc allocation */
/* no jemalloc under sanitizers */

/* Enable JavaScript */
/* #undef RRR_WITH_JS */

/* Compile with json-c bindings */
#define RRR_WITH_JSONC 1

/* Enable encryption in network modules with LibreSSL */
/* #undef RRR_WITH_LIBRESSL */

/* Enable Linux-style input device control */
#define RRR_WITH_LINUX_INPUT 1

/* Enable lua extensions */
#define RRR_WITH_LUA 1

/* Compile with MySQL module */
#define RRR_WITH_MYSQL 1

/* Compile with NGHTTP2 bindings */
#define RRR_WITH_NGHTTP2 1

/* Enable encryption in network modules with OpenSSL */
#define RRR_WITH_OPENSSL 1

/* "Use OpenSSL/LibreSSL cryptography functions" */
#define RRR_WITH_OPENSSL_CRYPT 1

/* Enable perl5 extensions */
#define RRR_WITH_PERL5 1

/* Build with python3 support */
#define RRR_WITH_PYTHON3 1

/* Enable encryption in network modules */
#define RRR_WITH_TLS 1

/* Compile with zlib bindings */
#define RRR_WITH_ZLIB 1

/* Define to 1 if all of the C90 standard headers exist (not just the ones
   required in a freestanding environment). This macro is provided for
   backward compatibility; new code need not use it. */
#define STDC_HEADERS 1

/* Use compressed pointers in V8, this parameter must match with of the V8
   library on the system was compiled */
/* #undef V8_COMPRESS_POINTERS */

/* Use sandboxing in V8, this parameter must match with of the V8 library on
   the system was compiled */
/* #undef V8_ENABLE_SANDBOX */

/* Version number of package */
#define VERSION "1.37-1"
