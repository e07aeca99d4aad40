#!/usr/bin/env python3
"""protogen.py FILE.proto OUTDIR: C++ message, stub and service classes for the proto3 subset used by /repo (stand-in for protoc
and the gRPC plugin, which are not installed). Messages are copied between client and server; field types bound the values."""
import os, re, sys
T = {"uint32": "uint32_t", "fixed32": "uint32_t", "uint64": "uint64_t", "fixed64": "uint64_t", "int32": "int32_t", "sint32": "int32_t", "sfixed32": "int32_t",
     "int64": "int64_t", "sint64": "int64_t", "sfixed64": "int64_t", "bool": "bool", "float": "float", "double": "double"}
def gen(path, out):
    s = re.sub(r"//[^\n]*|/\*.*?\*/", "", open(path).read(), flags=re.S)
    pkg = re.search(r"\bpackage\s+([\w.]+)\s*;", s).group(1).split(".")
    base = os.path.splitext(os.path.basename(path))[0]
    def typ(t):
        t = t.lstrip(".")
        return "::" + t.replace(".", "::") if "." in t else t
    o = ["// generated from " + os.path.basename(path), "#pragma once", "#include <grpcpp/grpcpp.h>", "#include <google/protobuf/empty.pb.h>", "#include <cstdint>", "#include <string>", "#include <vector>"]
    ns = "".join("namespace %s { " % p for p in pkg)
    o.append(ns)
    msgs = re.findall(r"\bmessage\s+(\w+)\s*\{(.*?)\}", s, flags=re.S)
    o += ["class %s;" % m for m, _ in msgs]
    for m, body in msgs:
        f, d = [], []
        nums = set()
        for rep, t, n, num in re.findall(r"(repeated\s+)?([\w.]+)\s+(\w+)\s*=\s*(\d+)[^;]*;", body):
            if num in nums: raise SystemExit("%s: field number %s used twice in %s" % (path, num, m))
            nums.add(num)
            if t in ("bytes", "string"): ct = "std::string"
            elif t in T: ct = T[t]
            else: ct = typ(t)
            if rep:
                f.append("    int {n}_size() const {{ return static_cast<int>({n}_.size()); }}\n    const {c}& {n}(int i) const {{ return {n}_.at(static_cast<size_t>(i)); }}\n    const std::vector<{c}>& {n}() const {{ return {n}_; }}\n    void clear_{n}() {{ {n}_.clear(); }}".format(n=n, c=ct))
                f.append("    void add_{n}(const {c}& v) {{ {n}_.push_back(v); }}".format(n=n, c=ct) if t in T or ct == "std::string" else "    {c}* add_{n}() {{ {n}_.emplace_back(); return &{n}_.back(); }}".format(n=n, c=ct))
                d.append("    std::vector<%s> %s_;" % (ct, n))
            elif ct == "std::string":
                f.append("    const std::string& {n}() const {{ return {n}_; }}\n    void set_{n}(const std::string& v) {{ {n}_ = v; }}\n    void set_{n}(std::string&& v) {{ {n}_ = std::move(v); }}\n    void set_{n}(const char* v) {{ {n}_ = v; }}\n    void set_{n}(const void* v, size_t n) {{ {n}_.assign(static_cast<const char*>(v), n); }}\n    std::string* mutable_{n}() {{ return &{n}_; }}\n    void clear_{n}() {{ {n}_.clear(); }}".format(n=n))
                d.append("    std::string %s_;" % n)
            elif t in T:
                f.append("    {c} {n}() const {{ return {n}_; }}\n    void set_{n}({c} v) {{ {n}_ = v; }}\n    void clear_{n}() {{ {n}_ = {c}(); }}".format(n=n, c=ct))
                d.append("    %s %s_{};" % (ct, n))
            else:
                f.append("    const {c}& {n}() const {{ return {n}_; }}\n    {c}* mutable_{n}() {{ has_{n}_ = true; return &{n}_; }}\n    bool has_{n}() const {{ return has_{n}_; }}".format(n=n, c=ct))
                d.append("    %s %s_;\n    bool has_%s_ = false;" % (ct, n, n))
        o.append("class %s final {\npublic:\n%s\n    void Clear() { *this = %s(); }\nprivate:\n%s\n};" % (m, "\n".join(f), m, "\n".join(d)))
    for name, body in re.findall(r"\bservice\s+(\w+)\s*\{(.*?)\n\}", s, flags=re.S):
        sv, st = [], []
        for m, qs, q, rs, r in re.findall(r"\brpc\s+(\w+)\s*\(\s*(stream\s+)?([\w.]+)\s*\)\s*returns\s*\(\s*(stream\s+)?([\w.]+)\s*\)", body):
            q, r = typ(q), typ(r)
            a = "grpc::ServerReader<%s>*" % q if qs else "const %s*" % q
            b = "grpc::ServerWriter<%s>*" % r if rs else r + "*"
            if qs and rs: a, b = "grpc::ServerReaderWriter<%s, %s>*" % (r, q), None
            sv.append("        virtual grpc::Status %s(grpc::ServerContext*, %s%s) { return grpc::Status(grpc::StatusCode::UNIMPLEMENTED, \"\"); }" % (m, a, ", " + b if b else ""))
            call = "static_cast<Service*>(s)->%s(c, a, b)" % m
            if not qs and not rs:
                st.append("        grpc::Status %s(grpc::ClientContext*, const %s& q, %s* r) { return grpc::model::unary<%s, %s>(*ch_, \"%s\", q, r, [](grpc::Service* s, grpc::ServerContext* c, const %s* a, %s* b) { return %s; }); }" % (m, q, r, q, r, m, q, r, call))
            elif rs and not qs:
                st.append("        std::unique_ptr<grpc::ClientReader<%s>> %s(grpc::ClientContext*, const %s& q) { return grpc::model::server_stream<%s, %s>(*ch_, \"%s\", q, [](grpc::Service* s, grpc::ServerContext* c, const %s* a, grpc::ServerWriter<%s>* b) { return %s; }); }" % (r, m, q, q, r, m, q, r, call))
            elif qs and not rs:
                st.append("        std::unique_ptr<grpc::ClientWriter<%s>> %s(grpc::ClientContext*, %s* r) { return grpc::model::client_stream<%s, %s>(*ch_, \"%s\", r, [](grpc::Service* s, grpc::ServerContext* c, grpc::ServerReader<%s>* a, %s* b) { return %s; }); }" % (q, m, r, q, r, m, q, r, call))
        o.append("class %s final {\npublic:\n    class Service : public grpc::Service {\n    public:\n%s\n    };\n    class Stub final {\n        std::shared_ptr<grpc::Channel> ch_;\n    public:\n        explicit Stub(std::shared_ptr<grpc::Channel> c) : ch_(std::move(c)) {}\n%s\n    };\n    static std::unique_ptr<Stub> NewStub(const std::shared_ptr<grpc::Channel>& c) { return std::unique_ptr<Stub>(new Stub(c)); }\n};" % (name, "\n".join(sv), "\n".join(st)))
    o.append("}" * len(pkg))
    os.makedirs(out, exist_ok=True)
    txt = "\n".join(o) + "\n"
    open(os.path.join(out, base + ".grpc.pb.h"), "w").write(txt)
    open(os.path.join(out, base + ".pb.h"), "w").write('#pragma once\n#include "%s.grpc.pb.h"\n' % base)
if __name__ == "__main__":
    gen(sys.argv[1], sys.argv[2])
