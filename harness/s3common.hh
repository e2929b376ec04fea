// Judging what a stream did to the simulated S3 service.
#pragma once
#include "drive.hh"
#include <miniocpp/client.h>

namespace hx {
inline azs3::Service&
svc()
{
    return azs3::Service::get();
}

inline void
svc_reset(const std::string& bucket = "az-bucket")
{
    svc().reset();
    svc().reset_op_counts();
    svc().add_bucket(bucket);
}

struct UploadFacts
{
    std::string key;
    std::set<unsigned> attempted, stored;
    uint64_t creates = 0, completes_ok = 0, completes = 0, completed_at = 0, last_part_at = 0;
    size_t bytes = 0;
};

// Protocol rules that hold in every execution, with or without failures.
inline std::map<std::string, UploadFacts>
check_protocol(const std::string& bucket, const std::string& prefix, std::vector<Problem>& pr, CaseReport& rep)
{
    std::map<std::string, UploadFacts> ups;
    for (auto& v : svc().violations()) {
        pr.push_back({ v.rfind("one connection", 0) == 0 ? "s3.connection-shared" : "s3.protocol", v });
    }
    for (auto& e : svc().events()) {
        rep.count("s3_requests");
        if (e.op == azs3::Op::ListBuckets) {
            continue;
        }
        if (e.bucket != bucket) {
            pr.push_back({ "s3.bucket", std::string(azs3::op_name(e.op)) + " in bucket '" + e.bucket + "'" });
        }
        if (e.op == azs3::Op::BucketExists) {
            continue;
        }
        if (e.key.rfind(prefix + "/", 0) != 0) {
            pr.push_back({ "s3.outside-prefix", std::string(azs3::op_name(e.op)) + " of key '" + e.key + "', the prefix is '" + prefix + "'" });
        }
        if (e.op == azs3::Op::CreateMultipartUpload && e.ok && !e.upload_id.empty()) {
            ups[e.upload_id].creates++;
            ups[e.upload_id].key = e.key;
        } else if (e.op == azs3::Op::UploadPart) {
            auto& u = ups[e.upload_id];
            u.attempted.insert(e.part_number);
            u.last_part_at = e.seq;
            if (e.ok && !e.etag.empty()) {
                u.stored.insert(e.part_number);
                u.bytes += e.size;
            } else {
                u.stored.erase(e.part_number);
            }
        } else if (e.op == azs3::Op::CompleteMultipartUpload) {
            auto& u = ups[e.upload_id];
            u.completes++;
            u.completes_ok += e.ok;
            u.completed_at = e.seq;
        }
    }
    for (auto& [id, u] : ups) {
        rep.count("multipart_uploads");
        rep.count("parts", u.attempted.size());
        if (u.completes == 0) {
            continue;
        }
        if (u.completes_ok > 1) {
            pr.push_back({ "s3.completed-twice", "upload of " + u.key + " completed " + std::to_string(u.completes_ok) + " times" });
        }
        unsigned n = 0;
        for (auto p : u.attempted) {
            if (p != ++n) {
                pr.push_back({ "s3.part-numbers", "parts of " + u.key + " are not numbered from 1 without gaps" });
                break;
            }
        }
        if (u.stored != u.attempted) {
            pr.push_back({ "s3.incomplete-published", "the upload of " + u.key + " was completed although only " +
                                                        std::to_string(u.stored.size()) + " of its " + std::to_string(u.attempted.size()) +
                                                        " parts were stored" });
        }
    }
    // a completed object is what its parts hold together
    auto all = svc().uploads();
    auto objects = svc().objects(bucket);
    for (auto& [id, u] : all) {
        if (!u.completed || !objects.count(u.key)) {
            continue;
        }
        std::string whole;
        for (auto& [n, p] : u.parts) {
            whole += p.second;
        }
        size_t sharing = 0;
        for (auto& [id2, u2] : all) {
            sharing += u2.completed && u2.key == u.key;
        }
        if (sharing == 1 && objects[u.key] != whole) {
            pr.push_back({ "s3.incomplete-published", "object " + u.key + " has " + std::to_string(objects[u.key].size()) + " bytes, its parts have " +
                                                        std::to_string(whole.size()) });
        }
    }
    return ups;
}

// Every request goes to the endpoint in the settings, encrypted if it says https, with the credentials in the settings.
inline void
check_callers(const S3Opts& so, std::vector<Problem>& pr)
{
    auto at = so.endpoint.find("://");
    const bool scheme = at != std::string::npos, https = so.endpoint.rfind("https://", 0) == 0;
    const std::string host = scheme ? so.endpoint.substr(at + 3) : so.endpoint;
    for (auto& [h, enc, key, secret] : svc().callers()) {
        if (h != host || (scheme && enc != https)) {
            pr.push_back({ "s3.endpoint", "a request went to '" + h + "'" + (enc ? " (https)" : "") + ", the endpoint is '" + so.endpoint + "'" });
        }
        if (key != so.key || secret != so.secret) {
            pr.push_back({ "s3.credentials", "a request was made with credentials '" + key + "', '" + secret + "' instead of '" + so.key + "', '" + so.secret + "'" });
        }
    }
}

// settings of an endpoint and an account
inline S3Opts
gen_s3(Rng& r)
{
    S3Opts so;
    so.endpoint = r.pick<std::string>({ "http://localhost:9000", "https://s3.example.org", "localhost", "http://10.0.0.7:80", "https://[::1]:9443",
                                        "http://https.example.org:8080", "https://s3.eu-central-1.amazonaws.com" });
    static const char alphabet[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=-_%&?";
    auto word = [&](size_t n) {
        std::string w;
        while (w.size() < n) {
            w.push_back(alphabet[r.range(0, sizeof alphabet - 2)]);
        }
        return w;
    };
    so.key = word(r.pick({ 1u, 3u, 20u, 128u }));
    so.secret = word(r.pick({ 1u, 8u, 40u, 300u }));
    return so;
}

inline void
compare_stores(const Store& want, const Store& got, const char* who, std::vector<Problem>& pr)
{
    for (auto& [k, v] : want) {
        auto it = got.find(k);
        if (it == got.end()) {
            pr.push_back({ "s3.missing", k + " is missing " + who });
        } else if (it->second != v) {
            pr.push_back({ "s3.differs", k + " differs " + who + ": " + std::to_string(it->second.size()) + " bytes, expected " + std::to_string(v.size()) });
        }
    }
    for (auto& [k, v] : got) {
        if (!want.count(k)) {
            pr.push_back({ "s3.extra", k + " should not exist " + who });
        }
    }
}

struct S3Run
{
    bool created = false, append_failed = false, wrong_count = false;
    uint64_t acked = 0;
    size_t failed_appends = 0;
    std::string log;
    bool reported() const { return !created || append_failed || !log.empty(); }
};

// Keeps appending for a while after a failure, as a careless client would.
inline S3Run
stream_to_s3(const Case& c, const std::string& prefix, const Bytes& data, const Cuts& cuts, const S3Opts& so)
{
    S3Run run;
    LogCapture cap;
    auto* s = create(c, prefix, &so);
    run.created = s != nullptr;
    if (s) {
        size_t off = 0;
        for (auto n : cuts) {
            size_t out = 0;
            auto code = ZarrStream_append(s, data.data() + off, n, &out);
            if (code != ZarrStatusCode_Success) {
                run.append_failed = true;
                if (++run.failed_appends > 3) {
                    break;
                }
            } else if (out != n) {
                run.wrong_count = true;
            } else if (!run.append_failed) {
                run.acked += n;
            }
            off += n;
        }
        ZarrStream_destroy(s);
    }
    run.log = cap.err();
    return run;
}
} // namespace hx
