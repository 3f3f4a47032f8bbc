"""A small S3 server on the loopback interface, in this process: the object store the library talks to through s3fs.

It keeps everything in memory, records each request (so it is a monitor of what reaches the store), and can be told to
fail at the k-th request. Keys are exactly what was stored: there are no directories, as in real S3."""
import base64
import binascii
import datetime
import hashlib
import http.server
import os
import socketserver
import threading
import urllib.parse
from xml.sax.saxutils import escape

HEAD = '<?xml version="1.0" encoding="UTF-8"?>\n'


class Server:
    """Store: bucket -> {key: bytes}. log: [(method, bucket, key or prefix)] of what changes or reads the store."""

    def __init__(self):
        self.buckets = {}
        self.uploads = {}
        self.log = []
        self.fault = None       # function(method, bucket, key) -> None or HTTP status to fail with
        self.page = 1000        # most keys in one page of a listing
        self.lock = threading.RLock()
        server = self

        class H(Handler):
            store = server

        class T(socketserver.ThreadingMixIn, http.server.HTTPServer):
            daemon_threads = True
            request_queue_size = 64

        self.httpd = T(("127.0.0.1", 0), H)
        self.url = "http://127.0.0.1:%d" % self.httpd.server_address[1]
        threading.Thread(target=self.httpd.serve_forever, kwargs={"poll_interval": 5}, daemon=True).start()

    def tree(self, bucket, prefix=""):
        """{relative path: bytes} below a prefix."""
        p = prefix.strip("/") + "/" if prefix.strip("/") else ""
        with self.lock:
            return {k[len(p):]: v for k, v in self.buckets.get(bucket, {}).items() if k.startswith(p)}

    def put_tree(self, bucket, prefix, files):
        with self.lock:
            b = self.buckets.setdefault(bucket, {})
            for n, c in files.items():
                b[(prefix.strip("/") + "/" + n).lstrip("/")] = c


def environ(server, home):
    """Environment in which botocore finds the server and nothing else."""
    os.environ.update({"AWS_ENDPOINT_URL": server.url, "AWS_ACCESS_KEY_ID": "vf", "AWS_SECRET_ACCESS_KEY": "vf", "AWS_DEFAULT_REGION": "us-east-1", "AWS_EC2_METADATA_DISABLED": "true",
                       "AWS_CONFIG_FILE": os.path.join(home, "none"), "AWS_SHARED_CREDENTIALS_FILE": os.path.join(home, "none"), "AWS_MAX_ATTEMPTS": "1", "no_proxy": "127.0.0.1"})


class Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"
    store = None
    disable_nagle_algorithm = True
    wbufsize = -1

    def handle_expect_100(self):
        self.send_response_only(100)
        self.end_headers()
        self.wfile.flush()
        return True

    def log_message(self, *a):
        pass

    def reply(self, status, body=b"", headers=(), kind="application/xml", length=None):
        if isinstance(body, str):
            body = body.encode("utf8")
        self.send_response(status)
        self.send_header("x-amz-request-id", "vf")
        for k, v in headers:
            self.send_header(k, v)
        if body or self.command != "HEAD":
            self.send_header("Content-Type", kind)
        self.send_header("Content-Length", str(len(body) if length is None else length))
        self.end_headers()
        if self.command != "HEAD" and body:
            self.wfile.write(body)
        self.wfile.flush()

    def error(self, status, code, msg=""):
        self.reply(status, HEAD + "<Error><Code>%s</Code><Message>%s</Message><RequestId>vf</RequestId></Error>" % (code, escape(msg or code)))

    def body(self):
        n = int(self.headers.get("Content-Length") or 0)
        if "chunked" in (self.headers.get("Transfer-Encoding") or ""):
            raw = b""
            while True:
                size = int(self.rfile.readline().split(b";")[0], 16)
                raw += self.rfile.read(size)
                self.rfile.readline()
                if not size:
                    break
        else:
            raw = self.rfile.read(n)
        if "aws-chunked" in (self.headers.get("Content-Encoding") or ""):
            out, i = b"", 0
            while True:
                j = raw.index(b"\r\n", i)
                size = int(raw[i:j].split(b";")[0], 16)
                if not size:
                    break
                out += raw[j + 2:j + 2 + size]
                i = j + 2 + size + 2
            raw = out
        return raw

    def handle_one(self):
        s = self.store
        u = urllib.parse.urlsplit(self.path)
        q = dict(urllib.parse.parse_qsl(u.query, keep_blank_values=True))
        parts = urllib.parse.unquote(u.path).lstrip("/").split("/", 1)
        bucket, key = parts[0], parts[1] if len(parts) > 1 else ""
        data = self.body() if self.command in ("PUT", "POST") else b""
        m = self.command
        with s.lock:
            if m == "GET" and not key:
                what = "LIST"
            elif m == "POST" and "delete" in q:
                what = "DELETE"
            else:
                what = m
            name = q.get("prefix", "") if what == "LIST" else key
            s.log.append((what, bucket, name))
            if s.fault is not None:
                st = s.fault(what, bucket, name)
                if st == 0:
                    self.close_connection = True
                    self.connection.close()
                    return None
                if st:
                    return self.error(st, {403: "AccessDenied", 400: "InvalidRequest", 500: "InternalError", 503: "SlowDown"}.get(st, "Fault"), "injected")
            return self.act(s, m, bucket, key, q, data)

    def act(self, s, m, bucket, key, q, data):
        if not bucket:
            return self.reply(200, HEAD + "<ListAllMyBucketsResult><Owner><ID>vf</ID></Owner><Buckets>%s</Buckets></ListAllMyBucketsResult>" %
                              "".join("<Bucket><Name>%s</Name><CreationDate>2020-01-01T00:00:00.000Z</CreationDate></Bucket>" % b for b in sorted(s.buckets)))
        if not key and m == "PUT":
            s.buckets.setdefault(bucket, {})
            return self.reply(200, headers=[("Location", "/" + bucket)])
        if bucket not in s.buckets:
            return self.error(404, "NoSuchBucket")
        b = s.buckets[bucket]
        if not key:
            if m == "HEAD":
                return self.reply(200, headers=[("x-amz-bucket-region", "us-east-1")])
            if m == "GET" and "location" in q:
                return self.reply(200, HEAD + '<LocationConstraint xmlns="http://s3.amazonaws.com/doc/2006-03-01/"/>')
            if m == "GET":
                return self.listing(s, b, bucket, q)
            if m == "POST" and "delete" in q:
                import xml.etree.ElementTree as ET
                out = ""
                for o in ET.fromstring(data).iter():
                    if o.tag.endswith("Key"):
                        b.pop(o.text, None)
                        out += "<Deleted><Key>%s</Key></Deleted>" % escape(o.text)
                return self.reply(200, HEAD + '<DeleteResult xmlns="http://s3.amazonaws.com/doc/2006-03-01/">%s</DeleteResult>' % out)
            if m == "DELETE":
                if b:
                    return self.error(409, "BucketNotEmpty")
                del s.buckets[bucket]
                return self.reply(204)
            return self.error(400, "InvalidRequest")
        if m == "PUT" and "x-amz-copy-source" in self.headers:
            src = urllib.parse.unquote(self.headers["x-amz-copy-source"]).lstrip("/").split("?")[0].split("/", 1)
            if src[0] not in s.buckets or src[1] not in s.buckets[src[0]]:
                return self.error(404, "NoSuchKey")
            b[key] = s.buckets[src[0]][src[1]]
            return self.reply(200, HEAD + "<CopyObjectResult><ETag>%s</ETag><LastModified>2020-01-01T00:00:00.000Z</LastModified></CopyObjectResult>" % etag(b[key]))
        if m == "PUT" and "uploadId" in q:
            up = s.uploads.get(q["uploadId"])
            if up is None:
                return self.error(404, "NoSuchUpload")
            up[int(q["partNumber"])] = data
            return self.reply(200, headers=[("ETag", etag(data))])
        if m == "PUT":
            want = self.headers.get("x-amz-checksum-crc32")
            if want and base64.b64encode(binascii.crc32(data).to_bytes(4, "big")).decode() != want:
                return self.error(400, "BadDigest")
            b[key] = data
            return self.reply(200, headers=[("ETag", etag(data))])
        if m == "POST" and "uploads" in q:
            uid = "u%d" % (len(s.uploads) + 1)
            s.uploads[uid] = {}
            return self.reply(200, HEAD + "<InitiateMultipartUploadResult><Bucket>%s</Bucket><Key>%s</Key><UploadId>%s</UploadId></InitiateMultipartUploadResult>" % (bucket, escape(key), uid))
        if m == "POST" and "uploadId" in q:
            up = s.uploads.pop(q["uploadId"], None)
            if up is None:
                return self.error(404, "NoSuchUpload")
            b[key] = b"".join(up[i] for i in sorted(up))
            return self.reply(200, HEAD + "<CompleteMultipartUploadResult><Bucket>%s</Bucket><Key>%s</Key><ETag>%s</ETag></CompleteMultipartUploadResult>" % (bucket, escape(key), etag(b[key])))
        if m == "DELETE" and "uploadId" in q:
            s.uploads.pop(q["uploadId"], None)
            return self.reply(204)
        if m == "DELETE":
            b.pop(key, None)
            return self.reply(204)
        if key not in b:
            return self.error(404, "NoSuchKey")
        c = b[key]
        h = [("ETag", etag(c)), ("Last-Modified", "Wed, 01 Jan 2020 00:00:00 GMT"), ("Accept-Ranges", "bytes")]
        if m == "HEAD":
            return self.reply(200, b"", h, "binary/octet-stream", len(c))
        r = self.headers.get("Range")
        if r:
            lo, hi = r.split("=")[1].split("-")
            if lo == "":
                lo, hi = max(0, len(c) - int(hi)), len(c) - 1
            lo, hi = int(lo), min(int(hi) if hi != "" else len(c) - 1, len(c) - 1)
            if lo >= len(c):
                return self.error(416, "InvalidRange")
            return self.reply(206, c[lo:hi + 1], h + [("Content-Range", "bytes %d-%d/%d" % (lo, hi, len(c)))], "binary/octet-stream")
        return self.reply(200, c, h, "binary/octet-stream")

    def listing(self, s, b, bucket, q):
        prefix, delim = q.get("prefix", ""), q.get("delimiter", "")
        most = min(int(q.get("max-keys", 1000)), s.page)
        after = q.get("start-after", "")
        if q.get("continuation-token"):
            after = base64.urlsafe_b64decode(q["continuation-token"]).decode("utf8")
        enc = (lambda t: urllib.parse.quote(t, safe="/")) if q.get("encoding-type") == "url" else escape
        out, seen, n, last, more = "", set(), 0, "", False
        for k in sorted(b, key=lambda k: k.encode("utf8")):
            if not k.startswith(prefix):
                continue
            item = k
            if delim and delim in k[len(prefix):]:
                item = k[:k.index(delim, len(prefix)) + len(delim)]
            if item in seen or item <= after and item.encode("utf8") <= after.encode("utf8"):
                continue
            if n >= most:
                more = True
                break
            seen.add(item)
            n += 1
            last = item
            if item != k or (delim and item.endswith(delim) and item != prefix and item != k):
                out += "<CommonPrefixes><Prefix>%s</Prefix></CommonPrefixes>" % enc(item)
            else:
                out += "<Contents><Key>%s</Key><LastModified>2020-01-01T00:00:00.000Z</LastModified><ETag>%s</ETag><Size>%d</Size><StorageClass>STANDARD</StorageClass></Contents>" % (enc(k), escape(etag(b[k])), len(b[k]))
        self.reply(200, HEAD + '<ListBucketResult xmlns="http://s3.amazonaws.com/doc/2006-03-01/"><Name>%s</Name><Prefix>%s</Prefix><Delimiter>%s</Delimiter><KeyCount>%d</KeyCount><MaxKeys>%d</MaxKeys>%s<IsTruncated>%s</IsTruncated>%s%s</ListBucketResult>' % (
            bucket, enc(prefix), enc(delim), n, most, "<EncodingType>url</EncodingType>" if q.get("encoding-type") == "url" else "", "true" if more else "false",
            "<NextContinuationToken>%s</NextContinuationToken>" % base64.urlsafe_b64encode(last.encode("utf8")).decode() if more else "", out))

    do_GET = do_PUT = do_POST = do_DELETE = do_HEAD = lambda self: self.handle_one()


def etag(c):
    return '"%s"' % hashlib.md5(c).hexdigest()


_SERVER = None


def server(home):
    """The server of this process."""
    global _SERVER
    if _SERVER is None:
        _SERVER = Server()
    environ(_SERVER, home)
    return _SERVER


def forget():
    """Drop what s3fs remembers of listings, as a new process would."""
    import s3fs
    for fs in list(s3fs.S3FileSystem._cache.values()):  # pylint: disable=protected-access
        fs.invalidate_cache()


class Bucket:
    """A bucket of its own for one case: with Bucket(ctx) as b."""

    def __init__(self, ctx):
        self.server = server(ctx.dir)
        self.name = "vf%d-%d" % (os.getpid(), ctx.index)
        self.url = "s3://" + self.name

    def __enter__(self):
        self.server.buckets[self.name] = {}
        self.server.fault = None
        self.server.log = []
        self.server.page = 1000
        forget()
        return self

    def __exit__(self, *a):
        self.server.fault = None
        self.server.buckets.pop(self.name, None)
        forget()

    def put(self, prefix, files):
        self.server.put_tree(self.name, prefix, files)

    def drop(self, key):
        self.server.buckets[self.name].pop(key, None)

    def tree(self, prefix):
        return self.server.tree(self.name, prefix)
