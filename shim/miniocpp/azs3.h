#pragma once

#include <algorithm>
#include <atomic>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <istream>
#include <list>
#include <map>
#include <mutex>
#include <new>
#include <set>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <vector>

// ---------------------------------------------------------------------------------------------------------------------
// The simulated service
// ---------------------------------------------------------------------------------------------------------------------
namespace azs3 {

enum class Op
{
    ListBuckets,
    BucketExists,
    StatObject,
    PutObject,
    RemoveObject,
    CreateMultipartUpload,
    UploadPart,
    CompleteMultipartUpload,
    AbortMultipartUpload,
    Count
};

inline const char*
op_name(Op op)
{
    static const char* names[] = { "ListBuckets",  "BucketExists",
                                   "StatObject",   "PutObject",
                                   "RemoveObject", "CreateMultipartUpload",
                                   "UploadPart",   "CompleteMultipartUpload",
                                   "AbortMultipartUpload" };
    return names[static_cast<int>(op)];
}

enum class Fault
{
    None,
    Error,      // the service answers with an error
    EmptyReply, // the call "succeeds" with an empty id / etag
    LostReply,  // the request takes effect, the caller sees an error
    Throw,      // the client library throws a std::exception
};

struct Event
{
    uint64_t seq;
    Op op;
    std::string bucket, key, upload_id, etag;
    unsigned part_number = 0;
    size_t size = 0;
    bool ok = false;
    Fault fault = Fault::None;
};

struct Upload
{
    std::string bucket, key;
    std::map<unsigned, std::pair<std::string, std::string>> parts; // number -> (etag, data)
    std::map<unsigned, size_t> sizes;                              // number -> bytes
    bool completed = false;
    bool aborted = false;
};

class Service
{
  public:
    static Service& get()
    {
        static Service s;
        return s;
    }

    // --- harness side -------------------------------------------------------------------------------------------
    void reset()
    {
        std::scoped_lock lock(m_);
        buckets_.clear();
        uploads_.clear();
        events_.clear();
        violations_.clear();
        callers_.clear();
        seq_ = 0;
        in_flight_ = 0;
        max_in_flight_ = 0;
        live_clients_ = 0;
        fault_ = nullptr;
        delay_ = nullptr;
        gate_ = nullptr;
        lite_ = false;
        watch_ = nullptr;
    }
    void add_bucket(const std::string& b)
    {
        std::scoped_lock lock(m_);
        buckets_[b];
    }
    // keep nothing: for watching the memory of the client
    void set_lite(bool on)
    {
        std::scoped_lock lock(m_);
        lite_ = on;
    }
    // called under the lock, with the number of requests of this kind that came before
    void set_fault(std::function<Fault(Op, uint64_t nth_of_op, const std::string& key)> f)
    {
        std::scoped_lock lock(m_);
        fault_ = std::move(f);
    }
    // called under the lock with every part; true if its data need not be kept
    void set_watch(std::function<bool(const std::string& key, unsigned number, const std::string& data)> f)
    {
        std::scoped_lock lock(m_);
        watch_ = std::move(f);
    }
    // called outside the lock, before the request takes effect
    void set_delay(std::function<void(Op, uint64_t seq)> f)
    {
        std::scoped_lock lock(m_);
        delay_ = std::move(f);
    }
    // called outside the lock, before the request takes effect, with its key
    void set_gate(std::function<void(Op, const std::string& key)> f)
    {
        std::scoped_lock lock(m_);
        gate_ = std::move(f);
    }
    std::map<std::string, std::string> objects(const std::string& bucket)
    {
        std::scoped_lock lock(m_);
        auto it = buckets_.find(bucket);
        return it == buckets_.end() ? std::map<std::string, std::string>{} : it->second;
    }
    std::vector<Event> events()
    {
        std::scoped_lock lock(m_);
        return events_;
    }
    std::vector<std::string> violations()
    {
        std::scoped_lock lock(m_);
        return violations_;
    }
    std::map<std::string, Upload> uploads()
    {
        std::scoped_lock lock(m_);
        return uploads_;
    }
    size_t max_in_flight()
    {
        std::scoped_lock lock(m_);
        return max_in_flight_;
    }
    long live_clients()
    {
        std::scoped_lock lock(m_);
        return live_clients_;
    }

    // who asked: endpoint without its scheme, whether encrypted, access key, secret
    using Caller = std::tuple<std::string, bool, std::string, std::string>;
    std::set<Caller> callers()
    {
        std::scoped_lock lock(m_);
        return callers_;
    }

    // --- client side --------------------------------------------------------------------------------------------
    static constexpr size_t min_part_size = 5 << 20;

    struct Reply
    {
        bool ok = false;
        bool exist = false;
        std::string etag, upload_id, error;
    };

    void client_born()
    {
        std::scoped_lock lock(m_);
        ++live_clients_;
    }
    void called_by(const Caller& c)
    {
        std::scoped_lock lock(m_);
        callers_.insert(c);
    }
    void client_died()
    {
        std::scoped_lock lock(m_);
        --live_clients_;
    }

    // `busy` belongs to the client: minio's client is not meant to be used by two threads at once here, the pool hands
    // a connection to one user at a time.
    Reply call(Op op,
               std::atomic<int>& busy,
               const std::string& bucket,
               const std::string& key,
               const std::string& upload_id = {},
               unsigned part_number = 0,
               std::string data = {},
               const std::vector<std::pair<unsigned, std::string>>& parts = {});

  private:
    std::mutex m_;
    std::map<std::string, std::map<std::string, std::string>> buckets_;
    std::map<std::string, Upload> uploads_;
    std::vector<Event> events_;
    std::vector<std::string> violations_;
    std::set<Caller> callers_;
    uint64_t seq_ = 0;
    size_t in_flight_ = 0, max_in_flight_ = 0;
    long live_clients_ = 0;
    bool lite_ = false;
    uint64_t op_counts_[static_cast<int>(Op::Count)] = {};
    std::function<Fault(Op, uint64_t, const std::string&)> fault_;
    std::function<void(Op, uint64_t)> delay_;
    std::function<void(Op, const std::string&)> gate_;
    std::function<bool(const std::string&, unsigned, const std::string&)> watch_;

    static std::string etag_of(const std::string& data)
    {
        uint64_t h = 1469598103934665603ull;
        size_t i = 0;
        for (; i + 8 <= data.size(); i += 8) {
            uint64_t w;
            memcpy(&w, data.data() + i, 8);
            h = (h ^ w) * 1099511628211ull;
            h ^= h >> 29;
        }
        for (; i < data.size(); ++i) {
            h = (h ^ (unsigned char)data[i]) * 1099511628211ull;
        }
        char buf[40];
        snprintf(buf, sizeof buf, "\"%016llx-%zu\"", (unsigned long long)h, data.size());
        return buf;
    }

    Reply perform_(Op op,
                   const std::string& bucket,
                   const std::string& key,
                   const std::string& upload_id,
                   unsigned part_number,
                   std::string&& data,
                   const std::vector<std::pair<unsigned, std::string>>& parts);

  public:
    void reset_op_counts()
    {
        std::scoped_lock lock(m_);
        for (auto& c : op_counts_) {
            c = 0;
        }
    }
};
} // namespace azs3

#include <atomic>
#include <cstdio>

namespace azs3 {
inline Service::Reply
Service::call(Op op,
              std::atomic<int>& busy,
              const std::string& bucket,
              const std::string& key,
              const std::string& upload_id,
              unsigned part_number,
              std::string data,
              const std::vector<std::pair<unsigned, std::string>>& parts)
{
    std::function<void(Op, uint64_t)> delay;
    std::function<void(Op, const std::string&)> gate;
    uint64_t seq;
    Fault fault = Fault::None;
    {
        std::scoped_lock lock(m_);
        if (busy.fetch_add(1) != 0) {
            violations_.push_back(std::string("one connection used by two threads at once, in ") + op_name(op));
        }
        max_in_flight_ = std::max(max_in_flight_, ++in_flight_);
        seq = seq_++;
        delay = delay_;
        gate = gate_;
        const auto nth = op_counts_[static_cast<int>(op)]++;
        if (fault_) {
            fault = fault_(op, nth, key);
        }
    }
    if (delay) {
        delay(op, seq);
    }
    if (gate) {
        gate(op, key);
    }

    Reply reply;
    Event event;
    event.seq = seq;
    event.op = op;
    event.bucket = bucket;
    event.key = key;
    event.part_number = part_number;
    event.size = data.size();
    event.fault = fault;
    {
        std::scoped_lock lock(m_);
        if (fault == Fault::None || fault == Fault::LostReply) {
            reply = perform_(op, bucket, key, upload_id, part_number, std::move(data), parts);
        }
        if (fault == Fault::Error || fault == Fault::LostReply || fault == Fault::Throw) {
            reply = Reply{};
            reply.error = "injected fault";
        } else if (fault == Fault::EmptyReply) {
            reply = Reply{};
            reply.ok = true;
        }
        event.upload_id = reply.upload_id.empty() ? upload_id : reply.upload_id;
        event.etag = reply.etag;
        event.ok = reply.ok;
        if (!lite_) {
            events_.push_back(event);
        }
        busy.fetch_sub(1);
        --in_flight_;
    }
    if (fault == Fault::Throw) {
        // whatever the client and the libraries below it throw (std::stoul of a header, an allocation, ...)
        switch (seq % 4) {
            case 1: throw std::invalid_argument("injected client exception");
            case 2: throw std::bad_alloc();
            case 3: throw std::out_of_range("injected client exception");
            default: throw std::runtime_error("injected client exception");
        }
    }
    return reply;
}

inline Service::Reply
Service::perform_(Op op,
                  const std::string& bucket,
                  const std::string& key,
                  const std::string& upload_id,
                  unsigned part_number,
                  std::string&& data,
                  const std::vector<std::pair<unsigned, std::string>>& parts)
{
    Reply r;
    auto fail = [&](const std::string& why) {
        r.ok = false;
        r.error = why;
        return r;
    };
    auto b = buckets_.find(bucket);
    switch (op) {
        case Op::ListBuckets:
            r.ok = true;
            return r;
        case Op::BucketExists:
            r.ok = true;
            r.exist = b != buckets_.end();
            return r;
        default:
            break;
    }
    if (b == buckets_.end()) {
        return fail("NoSuchBucket");
    }
    auto& objects = b->second;
    switch (op) {
        case Op::StatObject: {
            auto it = objects.find(key);
            if (it == objects.end()) {
                return fail("NoSuchKey");
            }
            r.ok = true;
            r.etag = etag_of(it->second);
            return r;
        }
        case Op::PutObject:
            r.etag = etag_of(data);
            if (!lite_) {
                objects[key] = std::move(data);
            }
            r.ok = true;
            return r;
        case Op::RemoveObject:
            objects.erase(key);
            r.ok = true;
            return r;
        case Op::CreateMultipartUpload: {
            r.upload_id = "upload-" + std::to_string(uploads_.size() + 1);
            Upload u;
            u.bucket = bucket;
            u.key = key;
            uploads_[r.upload_id] = u;
            r.ok = true;
            return r;
        }
        case Op::UploadPart: {
            auto it = uploads_.find(upload_id);
            if (it == uploads_.end()) {
                violations_.push_back("part uploaded to unknown upload id '" + upload_id + "'");
                return fail("NoSuchUpload");
            }
            auto& u = it->second;
            if (u.completed || u.aborted || u.key != key || u.bucket != bucket) {
                violations_.push_back("part uploaded to a closed or foreign upload");
                return fail("NoSuchUpload");
            }
            if (part_number < 1 || part_number > 10000) {
                violations_.push_back("part number out of range: " + std::to_string(part_number));
                return fail("InvalidPartNumber");
            }
            r.etag = etag_of(data);
            u.sizes[part_number] = data.size();
            if (watch_ && watch_(key, part_number, data)) {
                data.clear();
                data.shrink_to_fit();
            }
            u.parts[part_number] = { r.etag, std::move(data) };
            r.ok = true;
            return r;
        }
        case Op::CompleteMultipartUpload: {
            auto it = uploads_.find(upload_id);
            if (it == uploads_.end() || it->second.completed || it->second.aborted || it->second.key != key ||
                it->second.bucket != bucket) {
                violations_.push_back("completing an unknown, closed or foreign upload");
                return fail("NoSuchUpload");
            }
            auto& u = it->second;
            if (parts.empty()) {
                violations_.push_back("completing an upload without parts");
                return fail("MalformedXML");
            }
            std::string whole;
            unsigned last = 0;
            for (size_t i = 0; i < parts.size(); ++i) {
                const auto& [number, etag] = parts[i];
                auto p = u.parts.find(number);
                if (number <= last) {
                    violations_.push_back("parts not in ascending order");
                    return fail("InvalidPartOrder");
                }
                last = number;
                if (p == u.parts.end() || p->second.first != etag) {
                    violations_.push_back("completing with a part that was not uploaded");
                    return fail("InvalidPart");
                }
                if (i + 1 < parts.size() && u.sizes[number] < min_part_size) {
                    violations_.push_back("a part other than the last is smaller than 5 MiB");
                    return fail("EntityTooSmall");
                }
                whole += p->second.second;
            }
            u.completed = true;
            r.etag = etag_of(whole);
            if (lite_) {
                uploads_.erase(it);
            } else {
                objects[key] = std::move(whole);
            }
            r.ok = true;
            return r;
        }
        case Op::AbortMultipartUpload: {
            auto it = uploads_.find(upload_id);
            if (it == uploads_.end()) {
                return fail("NoSuchUpload");
            }
            it->second.aborted = true;
            r.ok = true;
            return r;
        }
        default:
            return fail("NotImplemented");
    }
}
} // namespace azs3

// ---------------------------------------------------------------------------------------------------------------------
// minio-cpp's names
// ---------------------------------------------------------------------------------------------------------------------
namespace minio {
namespace error {
class Error
{
  public:
    Error() = default;
    Error(std::string_view msg)
      : err_(msg)
    {
    }
    operator bool() const { return !err_.empty(); }
    std::string String() const { return err_; }

  private:
    std::string err_;
};
} // namespace error

namespace utils {
struct CharBuffer : std::streambuf
{
    CharBuffer(char* buf, size_t size) { this->setg(buf, buf, buf + size); }

    pos_type seekoff(off_type off,
                     std::ios_base::seekdir dir,
                     std::ios_base::openmode = std::ios_base::in) override
    {
        if (dir == std::ios_base::cur) {
            gbump(static_cast<int>(off));
        } else if (dir == std::ios_base::end) {
            setg(eback(), egptr() + off, egptr());
        } else if (dir == std::ios_base::beg) {
            setg(eback(), eback() + off, egptr());
        }
        return gptr() - eback();
    }
    pos_type seekpos(pos_type sp, std::ios_base::openmode which) override
    {
        return seekoff(sp - pos_type(off_type(0)), std::ios_base::beg, which);
    }
};
class Multimap
{
  public:
    void Add(std::string key, std::string value) { map_.emplace(std::move(key), std::move(value)); }

  private:
    std::multimap<std::string, std::string> map_;
};
} // namespace utils

namespace creds {
struct Credentials
{
    std::string access_key, secret_key;
};
class Provider
{
  public:
    virtual ~Provider() = default;
    virtual Credentials Fetch() = 0;
};
class StaticProvider : public Provider
{
  public:
    StaticProvider(std::string access_key, std::string secret_key, std::string session_token = {})
      : creds_{ std::move(access_key), std::move(secret_key) }
    {
    }
    Credentials Fetch() override { return creds_; }

  private:
    Credentials creds_;
};
} // namespace creds

namespace s3 {
struct BaseUrl
{
    bool https = true;
    std::string host;
    unsigned port = 0;
    std::string region;

    BaseUrl() = default;
    explicit BaseUrl(std::string h, bool https = true, std::string region = {})
      : https(https)
      , host(std::move(h))
      , region(std::move(region))
    {
    }
};

struct Part
{
    unsigned int number = 0;
    std::string etag;
    size_t size = 0;

    Part() = default;
    Part(unsigned int number, std::string etag)
      : number(number)
      , etag(std::move(etag))
    {
    }
};

struct BaseArgs
{
    utils::Multimap extra_headers, extra_query_params;
};
struct BucketArgs : BaseArgs
{
    std::string bucket, region;
};
struct ObjectArgs : BucketArgs
{
    std::string object;
};
struct ObjectWriteArgs : ObjectArgs
{
    utils::Multimap headers, user_metadata;
    bool legal_hold = false;
};
struct ListBucketsArgs : BaseArgs
{
};
struct BucketExistsArgs : BucketArgs
{
};
struct MakeBucketArgs : BucketArgs
{
    bool object_lock = false;
};
struct StatObjectArgs : ObjectArgs
{
    std::string version_id;
};
struct RemoveObjectArgs : ObjectArgs
{
    std::string version_id;
    bool bypass_governance_mode = false;
};
struct AbortMultipartUploadArgs : ObjectArgs
{
    std::string upload_id;
};
struct CreateMultipartUploadArgs : ObjectArgs
{
    utils::Multimap headers;
};
struct CompleteMultipartUploadArgs : ObjectArgs
{
    std::string upload_id;
    std::list<Part> parts;
};
struct UploadPartArgs : ObjectWriteArgs
{
    std::string upload_id;
    unsigned int part_number = 0;
    std::string_view data;
};
struct PutObjectArgs : ObjectWriteArgs
{
    std::istream& stream;
    long object_size;
    size_t part_size;
    std::string content_type;

    PutObjectArgs(std::istream& stream, long object_size, long part_size)
      : stream(stream)
      , object_size(object_size)
      , part_size(static_cast<size_t>(part_size))
    {
    }
};

struct Response
{
    std::string message;
    int status_code = 0;
    std::string etag;

    operator bool() const { return ok_; }
    error::Error Error() const { return ok_ ? error::Error() : error::Error(message.empty() ? "failed" : message); }

    Response() = default;
    explicit Response(const azs3::Service::Reply& r)
      : message(r.error)
      , status_code(r.ok ? 200 : 500)
      , etag(r.etag)
      , ok_(r.ok)
    {
    }

  protected:
    bool ok_ = false;
};
struct ListBucketsResponse : Response
{
    using Response::Response;
};
struct BucketExistsResponse : Response
{
    bool exist = false;
    explicit BucketExistsResponse(const azs3::Service::Reply& r)
      : Response(r)
      , exist(r.exist)
    {
    }
};
struct StatObjectResponse : Response
{
    using Response::Response;
    size_t size = 0;
};
struct PutObjectResponse : Response
{
    using Response::Response;
};
struct RemoveObjectResponse : Response
{
    using Response::Response;
};
struct UploadPartResponse : Response
{
    using Response::Response;
};
struct CompleteMultipartUploadResponse : Response
{
    using Response::Response;
};
struct AbortMultipartUploadResponse : Response
{
    using Response::Response;
};
struct MakeBucketResponse : Response
{
    using Response::Response;
};
struct CreateMultipartUploadResponse : Response
{
    std::string upload_id;
    explicit CreateMultipartUploadResponse(const azs3::Service::Reply& r)
      : Response(r)
      , upload_id(r.upload_id)
    {
    }
};

class Client
{
  public:
    Client(BaseUrl& url, creds::Provider* provider = nullptr)
      : url_(url)
      , provider_(provider)
    {
        svc_().client_born();
    }
    ~Client() { svc_().client_died(); }
    Client(const Client&) = delete;

    ListBucketsResponse ListBuckets() { return ListBucketsResponse(call_(azs3::Op::ListBuckets, {}, {})); }
    ListBucketsResponse ListBuckets(ListBucketsArgs) { return ListBuckets(); }
    BucketExistsResponse BucketExists(BucketExistsArgs a)
    {
        return BucketExistsResponse(call_(azs3::Op::BucketExists, a.bucket, {}));
    }
    StatObjectResponse StatObject(StatObjectArgs a)
    {
        return StatObjectResponse(call_(azs3::Op::StatObject, a.bucket, a.object));
    }
    PutObjectResponse PutObject(PutObjectArgs a)
    {
        std::string data(static_cast<size_t>(a.object_size), '\0');
        a.stream.read(data.data(), a.object_size);
        data.resize(static_cast<size_t>(a.stream.gcount()));
        return PutObjectResponse(call_(azs3::Op::PutObject, a.bucket, a.object, {}, 0, std::move(data)));
    }
    RemoveObjectResponse RemoveObject(RemoveObjectArgs a)
    {
        return RemoveObjectResponse(call_(azs3::Op::RemoveObject, a.bucket, a.object));
    }
    CreateMultipartUploadResponse CreateMultipartUpload(CreateMultipartUploadArgs a)
    {
        return CreateMultipartUploadResponse(call_(azs3::Op::CreateMultipartUpload, a.bucket, a.object));
    }
    UploadPartResponse UploadPart(UploadPartArgs a)
    {
        return UploadPartResponse(
          call_(azs3::Op::UploadPart, a.bucket, a.object, a.upload_id, a.part_number, std::string(a.data)));
    }
    CompleteMultipartUploadResponse CompleteMultipartUpload(CompleteMultipartUploadArgs a)
    {
        std::vector<std::pair<unsigned, std::string>> parts;
        for (const auto& p : a.parts) {
            parts.emplace_back(p.number, p.etag);
        }
        return CompleteMultipartUploadResponse(
          call_(azs3::Op::CompleteMultipartUpload, a.bucket, a.object, a.upload_id, 0, {}, parts));
    }
    AbortMultipartUploadResponse AbortMultipartUpload(AbortMultipartUploadArgs a)
    {
        return AbortMultipartUploadResponse(
          call_(azs3::Op::AbortMultipartUpload, a.bucket, a.object, a.upload_id));
    }

  private:
    BaseUrl url_;
    creds::Provider* provider_;
    std::atomic<int> busy_{ 0 };

    static azs3::Service& svc_() { return azs3::Service::get(); }

    azs3::Service::Reply call_(azs3::Op op,
                               const std::string& bucket,
                               const std::string& key,
                               const std::string& upload_id = {},
                               unsigned part_number = 0,
                               std::string data = {},
                               const std::vector<std::pair<unsigned, std::string>>& parts = {})
    {
        creds::Credentials who;
        if (provider_) {
            who = provider_->Fetch(); // the provider must outlive its use
        }
        auto host = url_.host;
        if (auto at = host.find("://"); at != std::string::npos) {
            host.erase(0, at + 3);
        }
        svc_().called_by({ host, url_.https, who.access_key, who.secret_key });
        return svc_().call(op, busy_, bucket, key, upload_id, part_number, std::move(data), parts);
    }
};
} // namespace s3
} // namespace minio
