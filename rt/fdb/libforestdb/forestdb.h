// Interface of the (absent) third-party ForestDB library, as far as the
// repository uses it.  The implementation behind it is the model in fdb_model.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
typedef enum { FDB_RESULT_SUCCESS = 0, FDB_RESULT_INVALID_ARGS = -1, FDB_RESULT_OPEN_FAIL = -2,
    FDB_RESULT_NO_SUCH_FILE = -3, FDB_RESULT_WRITE_FAIL = -4, FDB_RESULT_READ_FAIL = -5, FDB_RESULT_CLOSE_FAIL = -6,
    FDB_RESULT_KEY_NOT_FOUND = -9, FDB_RESULT_ITERATOR_FAIL = -11, FDB_RESULT_NO_DB_INSTANCE = -20,
    FDB_RESULT_CHECKSUM_ERROR = -25, FDB_RESULT_FILE_CORRUPTION = -26 } fdb_status;
typedef uint64_t fdb_seqnum_t;
#define FDB_SNAPSHOT_INMEM ((fdb_seqnum_t)-1)
typedef int (*fdb_custom_cmp_variable)(void* a, size_t len_a, void* b, size_t len_b, void* user_param);
typedef uint32_t fdb_seqtree_opt_t;
enum { FDB_SEQTREE_NOT_USE = 0, FDB_SEQTREE_USE = 1 };
typedef uint8_t fdb_durability_opt_t;
enum { FDB_DRB_NONE = 0, FDB_DRB_ODIRECT = 1, FDB_DRB_ASYNC = 2 };
typedef uint8_t fdb_commit_opt_t;
enum { FDB_COMMIT_NORMAL = 0, FDB_COMMIT_MANUAL_WAL_FLUSH = 1 };
enum { FDB_CUSTOM_SEQNUM = 1 };
typedef uint32_t fdb_compaction_status;
enum { FDB_CS_BEGIN = 1, FDB_CS_MOVE_DOC = 2, FDB_CS_END = 16 };
typedef int fdb_compact_decision;
enum { FDB_CS_KEEP_DOC = 0, FDB_CS_DROP_DOC = 1 };
typedef struct _fdb_file_handle fdb_file_handle;
typedef struct _fdb_kvs_handle fdb_kvs_handle;
typedef struct _fdb_iterator fdb_iterator;
typedef struct fdb_doc {
    size_t keylen, metalen, bodylen, size_ondisk;
    void* key;
    fdb_seqnum_t seqnum;
    uint64_t offset;
    void* meta;
    void* body;
    bool deleted;
    uint32_t flags;
} fdb_doc;
typedef fdb_compact_decision (*fdb_compaction_callback)(fdb_file_handle*, fdb_compaction_status, const char*, fdb_doc*, uint64_t, uint64_t, void*);
typedef struct {
    uint64_t buffercache_size;
    bool wal_flush_before_commit, bulk_load_mode, do_not_search_wal, do_not_cache_doc_blocks;
    uint64_t num_blocks_readahead;
    fdb_durability_opt_t durability_opt;
    uint8_t compaction_threshold;
    size_t block_reusing_threshold, max_block_reusing_cycle;
    uint64_t min_block_reuse_filesize;
    fdb_seqtree_opt_t seqtree_opt;
    uint32_t purging_interval;
    size_t num_keeping_headers;
    bool do_not_move_to_compacted_file;
    fdb_compaction_callback compaction_cb;
    void* compaction_cb_ctx;
    uint32_t compaction_cb_mask;
    bool enable_background_compactor;
    size_t num_compactor_threads;
    uint16_t num_wal_partitions, num_bcache_partitions;
    int log_msg_level;
    uint32_t flags;
    bool bulk_load;
} fdb_config;
typedef struct { bool create_if_missing; fdb_custom_cmp_variable custom_cmp; void* custom_cmp_param; } fdb_kvs_config;
typedef struct { const char* filename; uint64_t doc_count, deleted_count, space_used, file_size; uint64_t sb_bmp_revnum, num_live_nodes; } fdb_file_info;
typedef struct { const char* name; fdb_seqnum_t last_seqnum; uint64_t doc_count, deleted_count, space_used; } fdb_kvs_info;
typedef struct { char* kv_store_name; fdb_seqnum_t seqnum; } fdb_kvs_commit_marker_t;
typedef struct { uint64_t marker; int64_t num_kvs_markers; fdb_kvs_commit_marker_t* kvs_markers; } fdb_snapshot_info_t;
typedef uint16_t fdb_iterator_opt_t;
enum { FDB_ITR_NONE = 0, FDB_ITR_NO_DELETES = 2 };
typedef uint8_t fdb_iterator_seek_opt_t;
enum { FDB_ITR_SEEK_HIGHER = 0, FDB_ITR_SEEK_LOWER = 1 };
typedef uint8_t fdb_get_nearest_opt_t;
enum { FDB_GET_GREATER_OR_EQUAL = 0, FDB_GET_GREATER = 1, FDB_GET_SMALLER_OR_EQUAL = 2, FDB_GET_SMALLER = 3 };
typedef int fdb_index_traversal_decision;
enum { FDB_IT_NEXT = 0, FDB_IT_STOP = 1 };
typedef struct { const void* key; size_t keylen; uint64_t offset; } fdb_index_traversal_params;
typedef fdb_index_traversal_decision (*fdb_index_traversal_cb)(fdb_kvs_handle*, void*, size_t, uint64_t, void*);
typedef void (*fdb_log_callback_ex)(int, int, const char*, const char*, size_t, const char*, void*);
extern "C" {
fdb_config fdb_get_default_config(void);
fdb_kvs_config fdb_get_default_kvs_config(void);
fdb_status fdb_open(fdb_file_handle**, const char*, fdb_config*);
fdb_status fdb_open_custom_cmp(fdb_file_handle**, const char*, fdb_config*, size_t, char**, fdb_custom_cmp_variable*, void**);
fdb_status fdb_kvs_open(fdb_file_handle*, fdb_kvs_handle**, const char*, fdb_kvs_config*);
fdb_status fdb_kvs_close(fdb_kvs_handle*);
fdb_status fdb_close(fdb_file_handle*);
fdb_status fdb_commit(fdb_file_handle*, fdb_commit_opt_t);
fdb_status fdb_sync_file(fdb_file_handle*);
fdb_status fdb_set(fdb_kvs_handle*, fdb_doc*);
fdb_status fdb_del(fdb_kvs_handle*, fdb_doc*);
fdb_status fdb_get(fdb_kvs_handle*, fdb_doc*);
fdb_status fdb_get_metaonly(fdb_kvs_handle*, fdb_doc*);
fdb_status fdb_get_byoffset_raw(fdb_kvs_handle*, fdb_doc*);
fdb_status fdb_get_nearest(fdb_kvs_handle*, void*, size_t, fdb_doc*, fdb_get_nearest_opt_t);
fdb_status fdb_doc_free(fdb_doc*);
fdb_status fdb_iterator_init(fdb_kvs_handle*, fdb_iterator**, const void*, size_t, const void*, size_t, fdb_iterator_opt_t);
fdb_status fdb_iterator_sequence_init(fdb_kvs_handle*, fdb_iterator**, fdb_seqnum_t, fdb_seqnum_t, fdb_iterator_opt_t);
fdb_status fdb_iterator_prev(fdb_iterator*);
fdb_status fdb_iterator_next(fdb_iterator*);
fdb_status fdb_iterator_get(fdb_iterator*, fdb_doc**);
fdb_status fdb_iterator_get_metaonly(fdb_iterator*, fdb_doc**);
fdb_status fdb_iterator_seek(fdb_iterator*, const void*, size_t, fdb_iterator_seek_opt_t);
fdb_status fdb_iterator_seek_byseq(fdb_iterator*, fdb_seqnum_t, fdb_iterator_seek_opt_t);
fdb_status fdb_iterator_seek_to_min(fdb_iterator*);
fdb_status fdb_iterator_seek_to_max(fdb_iterator*);
fdb_status fdb_iterator_close(fdb_iterator*);
fdb_status fdb_snapshot_open(fdb_kvs_handle*, fdb_kvs_handle**, fdb_seqnum_t);
fdb_status fdb_get_all_snap_markers(fdb_file_handle*, fdb_snapshot_info_t**, uint64_t*);
fdb_status fdb_free_snap_markers(fdb_snapshot_info_t*, uint64_t);
fdb_status fdb_get_file_info(fdb_file_handle*, fdb_file_info*);
fdb_status fdb_get_kvs_info(fdb_kvs_handle*, fdb_kvs_info*);
fdb_status fdb_get_kvs_seqnum(fdb_kvs_handle*, fdb_seqnum_t*);
fdb_status fdb_traverse_index(fdb_kvs_handle*, void*, size_t, fdb_index_traversal_cb, void*);
fdb_status fdb_shutdown(void);
void fdb_print_cache_stats(void);
uint64_t fdb_get_buffer_cache_used(void);
fdb_status fdb_set_log_callback_ex_global(fdb_log_callback_ex, void*);
}
