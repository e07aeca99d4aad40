// Stand-in for RocksDB: a map per path that survives reopening, with operations that a harness can make fail.
// Contract modelled: Get returns the last value Put and not Deleted since, or NotFound; a failed operation reports a
// non-OK, non-NotFound status and has no effect; a database is open at most once at a time; all calls are atomic.
#pragma once
#include <cassert>
#include "vf.h"
#include <cstring>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <vector>
namespace rocksdb {
class Slice
{
public:
    Slice() = default;
    Slice(const char* d, size_t n) : data_(d), size_(n) {}
    Slice(const std::string& s) : data_(s.data()), size_(s.size()) {} // NOLINT
    Slice(const char* s) : data_(s), size_(strlen(s)) {}              // NOLINT
    const char* data() const { return data_; }
    size_t size() const { return size_; }
    bool empty() const { return size_ == 0; }
    char operator[](size_t n) const { return data_[n]; }
    std::string ToString() const { return std::string(data_, size_); }
private:
    const char* data_{""};
    size_t size_{0};
};
class Status
{
public:
    enum Code : unsigned char { kOk = 0, kNotFound, kCorruption, kNotSupported, kInvalidArgument, kIOError, kBusy };
    Status() = default;
    explicit Status(Code c) : c_(c) {}
    static Status OK() { return Status(); }
    static Status NotFound() { return Status(kNotFound); }
    static Status Corruption() { return Status(kCorruption); }
    static Status InvalidArgument() { return Status(kInvalidArgument); }
    static Status IOError() { return Status(kIOError); }
    static Status Busy() { return Status(kBusy); }
    bool ok() const { return c_ == kOk; }
    bool IsNotFound() const { return c_ == kNotFound; }
    bool IsCorruption() const { return c_ == kCorruption; }
    bool IsIOError() const { return c_ == kIOError; }
    bool IsBusy() const { return c_ == kBusy; }
    bool IsInvalidArgument() const { return c_ == kInvalidArgument; }
    Code code() const { return c_; }
    std::string ToString() const { return ok() ? "OK" : "error"; }
private:
    Code c_{kOk};
};
struct MemTableRepFactory
{
    virtual ~MemTableRepFactory() = default;
    virtual bool IsInsertConcurrentlySupported() const { return true; }
};
struct VectorRepFactory : MemTableRepFactory
{
    explicit VectorRepFactory(size_t = 0) {}
    bool IsInsertConcurrentlySupported() const override { return false; }
};
struct SkipListFactory : MemTableRepFactory
{
    explicit SkipListFactory(size_t = 0) {}
};
struct TableFactory { virtual ~TableFactory() = default; };
struct CuckooTableOptions
{
    double hash_table_ratio = 0.9;
    uint32_t max_search_depth = 100;
    uint32_t cuckoo_block_size = 5;
    bool identity_as_first_hash = false;
    bool use_module_hash = true;
};
inline TableFactory* NewCuckooTableFactory(const CuckooTableOptions& = CuckooTableOptions()) { return new TableFactory(); }
struct BlockBasedTableOptions {};
inline TableFactory* NewBlockBasedTableFactory(const BlockBasedTableOptions& = BlockBasedTableOptions()) { return new TableFactory(); }
enum CompressionType : unsigned char { kNoCompression = 0, kSnappyCompression = 1, kDisableCompressionOption = 0xff };
enum CompactionStyle : char { kCompactionStyleLevel = 0, kCompactionStyleUniversal = 1, kCompactionStyleFIFO = 2, kCompactionStyleNone = 3 };
enum InfoLogLevel : unsigned char { DEBUG_LEVEL = 0, INFO_LEVEL, WARN_LEVEL, ERROR_LEVEL, FATAL_LEVEL, HEADER_LEVEL };
struct Options
{
    bool create_if_missing = false, create_missing_column_families = false, error_if_exists = false, paranoid_checks = true;
    int table_cache_numshardbits = 6, max_open_files = -1, max_background_compactions = -1, max_background_flushes = -1, max_background_jobs = 2, num_levels = 7, max_write_buffer_number = 2;
    std::shared_ptr<TableFactory> table_factory;
    std::shared_ptr<MemTableRepFactory> memtable_factory = std::make_shared<SkipListFactory>();
    CompressionType compression = kSnappyCompression, bottommost_compression = kDisableCompressionOption;
    CompactionStyle compaction_style = kCompactionStyleLevel;
    InfoLogLevel info_log_level = INFO_LEVEL;
    uint64_t delayed_write_rate = 0, max_bytes_for_level_base = 0, hard_pending_compaction_bytes_limit = 0, target_file_size_base = 0;
    size_t arena_block_size = 0, write_buffer_size = 0;
    bool allow_mmap_reads = false, allow_mmap_writes = false, is_fd_close_on_exec = true, allow_concurrent_memtable_write = true, optimize_filters_for_hits = false, use_fsync = false, disable_auto_compactions = false;
    int level0_file_num_compaction_trigger = 4, level0_slowdown_writes_trigger = 20, level0_stop_writes_trigger = 36;
    Options* IncreaseParallelism(int = 16) { return this; }
    Options* OptimizeForPointLookup(uint64_t) { return this; }
    Options* OptimizeLevelStyleCompaction(uint64_t = 0) { return this; }
};
struct ReadOptions
{
    bool verify_checksums = true, fill_cache = true;
    ReadOptions() = default;
    ReadOptions(bool v, bool f) : verify_checksums(v), fill_cache(f) {}
};
struct WriteOptions { bool sync = false, disableWAL = false; };
struct FlushOptions { bool wait = true, allow_write_stall = false; };
struct CompactRangeOptions {};
class WriteBatch
{
public:
    Status Put(const Slice& k, const Slice& v) { ops.push_back({true, k.ToString(), v.ToString()}); return Status(); }
    Status Delete(const Slice& k) { ops.push_back({false, k.ToString(), ""}); return Status(); }
    void Clear() { ops.clear(); }
    int Count() const { return static_cast<int>(ops.size()); }
    struct Op { bool put; std::string k, v; };
    std::vector<Op> ops;
};
namespace model {
struct Store
{
    bool open = false;
    struct Entry { std::string first, second; std::vector<std::string> older; }; // older: values overwritten since the last Delete
    std::vector<Entry> kv;
    uint64_t puts = 0, gets = 0, deletes = 0, flushes = 0, waited = 0; // (waited: blocking flushes)
};
enum Op { OpOpen, OpGet, OpPut, OpDelete, OpFlush, OpProp };
inline std::map<std::string, Store>& stores() { static auto* s = new std::map<std::string, Store>(); return *s; }
// every call is atomic, but orders nothing: the store synchronises itself, not its callers
struct Atomic
{
    Atomic() { vf_yield(); old = vf_norace(true); }
    ~Atomic() { vf_norace(old); }
    bool old;
};
// fault injection: the harness decides per operation whether it fails
inline bool (*&fault())(Op, const std::string& path) { static bool (*f)(Op, const std::string&) = nullptr; return f; }
inline bool fails(Op o, const std::string& p) { return fault() != nullptr && fault()(o, p); }
} // namespace model
class DB
{
public:
    struct Properties { static constexpr const char* kEstimateNumKeys = "rocksdb.estimate-num-keys"; };
    static Status Open(const Options& o, const std::string& path, DB** db)
    {
        *db = nullptr;
        model::Atomic l;
        auto it = model::stores().find(path);
        if (it == model::stores().end() && !o.create_if_missing) return Status::InvalidArgument();
        if (model::fails(model::OpOpen, path)) return Status::IOError();
        model::Store& s = model::stores()[path];
        if (s.open) return Status::IOError(); // held by another handle
        s.open = true;
        *db = new DB(path, &s);
        return Status();
    }
    ~DB()
    {
        model::Atomic l;
        s_->open = false;
    }
    DB(const DB&) = delete;
    DB& operator=(const DB&) = delete;
    Status Get(const ReadOptions&, const Slice& k, std::string* v)
    {
        model::Atomic l;
        s_->gets++;
        if (model::fails(model::OpGet, path_)) return Status::IOError();
        for (auto& e : s_->kv) if (same(e.first, k)) { *v = e.second; return Status(); }
        return Status::NotFound();
    }
    Status Put(const WriteOptions&, const Slice& k, const Slice& v)
    {
        model::Atomic l;
        s_->puts++;
        if (model::fails(model::OpPut, path_)) return Status::IOError();
        put(k, v);
        return Status();
    }
    Status Delete(const WriteOptions&, const Slice& k)
    {
        model::Atomic l;
        s_->deletes++;
        if (model::fails(model::OpDelete, path_)) return Status::IOError();
        del(k);
        return Status();
    }
    // only defined for a key written once: it cancels the last write, and an older value may come back
    Status SingleDelete(const WriteOptions&, const Slice& k)
    {
        model::Atomic l;
        s_->deletes++;
        if (model::fails(model::OpDelete, path_)) return Status::IOError();
        for (auto& e : s_->kv)
            if (same(e.first, k) && !e.older.empty() && vf_choice("SingleDelete uncovers an older value", 2)) { e.second = e.older.back(); e.older.pop_back(); return Status(); }
        del(k);
        return Status();
    }
    Status Write(const WriteOptions&, WriteBatch* b)
    {
        model::Atomic l;
        if (model::fails(model::OpPut, path_)) return Status::IOError();
        for (auto& o : b->ops) { if (o.put) put(o.k, o.v); else del(o.k); }
        return Status();
    }
    Status Flush(const FlushOptions& o)
    {
        model::Atomic l;
        s_->flushes++;
        s_->waited += o.wait;
        return model::fails(model::OpFlush, path_) ? Status::IOError() : Status();
    }
    Status CompactRange(const CompactRangeOptions&, const Slice*, const Slice*) { return Status(); }
    bool KeyMayExist(const ReadOptions&, const Slice&, std::string*) { return true; }
    bool GetIntProperty(const Slice& p, uint64_t* v)
    {
        model::Atomic l;
        if (p.ToString() != Properties::kEstimateNumKeys || model::fails(model::OpProp, path_)) return false;
        *v = s_->kv.size();
        return true;
    }
private:
    DB(const std::string& p, model::Store* s) : path_(p), s_(s) {}
    static bool same(const std::string& a, const Slice& b) { return a.size() == b.size() && memcmp(a.data(), b.data(), b.size()) == 0; }
    void put(const Slice& k, const Slice& v)
    {
        for (auto& e : s_->kv) if (same(e.first, k)) { e.older.push_back(e.second); e.second.assign(v.data(), v.size()); return; }
        s_->kv.push_back({k.ToString(), v.ToString(), {}});
    }
    void del(const Slice& k)
    {
        for (size_t i = 0; i < s_->kv.size(); i++) if (same(s_->kv[i].first, k)) { s_->kv.erase(s_->kv.begin() + static_cast<long>(i)); return; }
    }
    std::string path_;
    model::Store* s_;
};
} // namespace rocksdb
