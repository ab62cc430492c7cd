// In-memory POSIX file system used as the environment of the storage layers.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
enum { MFS_KILL = 0,      // process dies: everything handed to the kernel survives
       MFS_POWER = 1 };   // power failure: unsynced data survives only partially
void     mfs_reset();
void     mfs_mkdirs(const char* path);
uint64_t mfs_ops();                       // mutating operations so far
void     mfs_crash_at(uint64_t k, int mode);  // freeze the surviving image during the k-th mutating operation from now (1-based)
int      mfs_crashed();                   // has that operation been reached?
void     mfs_coarse(int on);               // fewer surviving images: the process dies between operations; power loss spares or takes everything, except in one file
void     mfs_crash_now(int mode);
void     mfs_reboot();                    // continue from the frozen image (if any); all descriptors are gone
void     mfs_fault(uint64_t k, uint64_t count, int kind);  // operations k..k+count-1 from now fail; kind: 1 error, 2 short write/read
void     mfs_fault_filter(uint32_t mask); // which operations count for mfs_fault (MFS_OP_*)
uint64_t mfs_faults_hit();
void     mfs_align(uint64_t a);             // transfer unit required by O_DIRECT (default 512)
void     mfs_lseek_end(uint64_t size);     // report this size from lseek(SEEK_END) (0: the real one)
int      mfs_exists(const char* path);
int64_t  mfs_size(const char* path);
uint8_t* mfs_data(const char* path);      // volatile content
void     mfs_put(const char* path, const void* d, size_t n);   // create/replace, durable
void     mfs_resize(const char* path, size_t n);
size_t   mfs_list(const char* dir, char names[][64], size_t max);
uint64_t mfs_heap();                      // allocations held by the model
int      mfs_open_fds();
int      mfs_durable(const char* path);   // all content of this file would survive a power failure
uint64_t mfs_nfsync();
void     mfs_copy_tree(const char* from, const char* to);
enum { MFS_OP_WRITE = 1, MFS_OP_FSYNC = 2, MFS_OP_TRUNC = 4, MFS_OP_CREATE = 8, MFS_OP_UNLINK = 16, MFS_OP_RENAME = 32,
       MFS_OP_MKDIR = 64, MFS_OP_READ = 128, MFS_OP_OPEN = 256, MFS_OP_CLOSE = 512 };
}
