// C21: the web server of apps/WebServer on the loopback network, with clients that send what a script says.
#include "harness.h"
#include <ply-runtime/Core.h>
#define main plyWebServerMain
#include <WebServer/WebServer.cpp>
#undef main
#include <web-common/URLEscape.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <poll.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <mutex>
#include <thread>

static std::string g_scratch, g_dir;
const char* plyVerifWorkspace() {
    return "/nonexistent/ws/";
}
const char* plyVerifCMake() {
    return "/nonexistent/cmake";
}
typedef std::vector<Bytes> BytesVec;

static std::string jb(const Bytes& v) {
    std::string s = "[";
    for (size_t j = 0; j < v.size(); j++)
        s += (j ? "," : "") + std::to_string((int) (unsigned char) v[j]);
    return s + "]";
}

//---------------------------------------------------------------- the server
struct Handled {
    Bytes method, uri, ver, path, addr;
    std::vector<std::pair<Bytes, Bytes>> fields;
};
static std::mutex g_mutex;
static std::map<int, std::vector<Handled>> g_handled; // by the client's port
static std::atomic<AllParams*> g_params{nullptr};
static int g_port = 0;

static char pattern(size_t i) {
    return (char) ('!' + i % 89);
}
static size_t num(const std::string& s) {
    return (size_t) atoll(s.c_str());
}
static void testHandler(const Bytes& p, ResponseIface* r) {
    std::vector<std::string> c(1);
    for (char ch : p)
        if (ch == '/')
            c.emplace_back();
        else
            c.back() += ch;
    c.resize(4);
    if (c[0] == "none")
        return;
    if (c[0] == "gen") {
        size_t n = num(c[1]);
        r->respondGeneric(n == 400 ? ResponseCode::BadRequest : n == 404 ? ResponseCode::NotFound : n == 500 ? ResponseCode::InternalError : ResponseCode::OK);
        return;
    }
    OutStream* outs = r->beginResponseHeader(ResponseCode::OK);
    *outs << "Content-Type: text/plain\r\n";
    if (c[3].size())
        *outs << "X-Long: " << StringView{"abcdefghij"} * (u32) num(c[3]) << "\r\n";
    *outs << "\r\n";
    if (c[0] == "begin")
        return;
    r->endResponseHeader();
    size_t n = num(c[1]), k = num(c[2]);
    for (size_t i = 0; i < n;) { // pieces of k bytes; with "flush", each sent at once
        std::string s;
        for (; s.size() < std::max<size_t>(k, 1) && i < n; i++)
            s += pattern(i);
        outs->write(sv(s));
        if (c[0] == "flush")
            outs->flushMem();
    }
}
static void handler(void*, StringView path, ResponseIface* r) {
    Handled h;
    const Request& q = r->request;
    h.method = bytes(q.startLine.method);
    h.uri = bytes(q.startLine.uri);
    h.ver = bytes(q.startLine.httpVersion);
    h.path = bytes(path);
    String a = q.clientAddr.toString();
    h.addr = bytes(a);
    for (const Request::HeaderField& f : q.headerFields)
        h.fields.push_back({bytes(f.name), bytes(f.value)});
    {
        std::lock_guard<std::mutex> g{g_mutex};
        g_handled[q.clientPort].push_back(h);
    }
    if (h.uri.compare(0, 3, "/t/") == 0)
        testHandler(h.uri.substr(3), r);
    else
        myRequestHandler(g_params.load(), path, r);
}

static int connectTo() {
    int s = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a;
    memset(&a, 0, sizeof(a));
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    a.sin_port = htons((unsigned short) g_port);
    if (connect(s, (sockaddr*) &a, sizeof(a)) != 0) {
        close(s);
        return -1;
    }
    int one = 1;
    setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
    fcntl(s, F_SETFD, FD_CLOEXEC);
    return s;
}
static int portOf(int s) {
    sockaddr_in a;
    socklen_t n = sizeof(a);
    getsockname(s, (sockaddr*) &a, &n);
    return ntohs(a.sin_port);
}
static void startServer(bool v6) {
    Socket::initialize(v6 ? IPAddress::V6 : IPAddress::V4);
    for (int attempt = 0; attempt < 20; attempt++) {
        int s = socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in a;
        memset(&a, 0, sizeof(a));
        a.sin_family = AF_INET;
        if (bind(s, (sockaddr*) &a, sizeof(a)) != 0)
            toolError("no port");
        g_port = portOf(s);
        close(s);
        auto running = std::make_shared<std::atomic<bool>>(true);
        std::thread([running] {
            runServer((u16) g_port, {handler, (void*) nullptr});
            *running = false;
        }).detach();
        for (int i = 0; i < 2000 && *running; i++) {
            int c = connectTo();
            if (c >= 0) {
                close(c);
                return;
            }
            usleep(2000);
        }
    }
    toolError("the server does not start");
}

//---------------------------------------------------------------- the clients
struct Response {
    int code = 0;
    Bytes reason, ctype, body;
    bool te = false, ok = false;
    size_t hdr = 0; // length of the long header field
};
// One response at pos; false when it is not there completely. At the end of the stream, a body without a length ends too.
static bool parseResponse(const Bytes& b, size_t& pos, bool eof, Response& r) {
    r = Response{};
    size_t e = b.find("\r\n\r\n", pos);
    if (e == Bytes::npos)
        return false;
    Bytes head = b.substr(pos, e - pos) + "\r\n";
    if (head.compare(0, 9, "HTTP/1.1 ") != 0)
        return false;
    r.code = atoi(head.c_str() + 9);
    size_t nl = head.find("\r\n");
    r.reason = head.size() > 13 ? head.substr(13, nl - 13) : "";
    for (size_t p = nl + 2; p < head.size();) {
        size_t q = head.find("\r\n", p);
        Bytes line = head.substr(p, q - p);
        size_t c = line.find(':');
        if (c == Bytes::npos)
            return false;
        Bytes k = line.substr(0, c), v = line.substr(c + 1);
        while (v.size() && v[0] == ' ')
            v.erase(0, 1);
        for (char& ch : k)
            ch = (char) tolower(ch);
        if (k == "transfer-encoding")
            r.te = v == "chunked";
        if (k == "content-type")
            r.ctype = v;
        if (k == "x-long") {
            r.hdr = v.size() / 10;
            for (size_t i = 0; i < v.size(); i++)
                if (v[i] != "abcdefghij"[i % 10])
                    r.hdr = 999999;
        }
        p = q + 2;
    }
    size_t p = e + 4;
    if (!r.te) {
        if (!eof)
            return false;
        r.body = b.substr(p);
        pos = b.size();
        r.ok = true;
        return true;
    }
    for (;;) {
        size_t q = b.find("\r\n", p);
        if (q == Bytes::npos || q == p)
            return false;
        size_t n = 0;
        for (size_t i = p; i < q; i++) {
            if (!isxdigit((unsigned char) b[i]))
                return false;
            n = n * 16 + (size_t) (b[i] <= '9' ? b[i] - '0' : (b[i] | 32) - 'a' + 10);
            if (n > (1u << 26))
                return false;
        }
        if (b.size() < q + 2 + n + 2 || b.compare(q + 2 + n, 2, "\r\n") != 0)
            return false;
        r.body += b.substr(q + 2, n);
        p = q + 2 + n + 2;
        if (n == 0)
            break;
    }
    pos = p;
    r.ok = true;
    return true;
}
static Bytes between(const Bytes& b, const Bytes& x, const Bytes& y, size_t from = 0, size_t* end = nullptr) {
    size_t p = b.find(x, from);
    if (p == Bytes::npos)
        return "";
    size_t q = b.find(y, p + x.size());
    if (q == Bytes::npos)
        return "";
    if (end)
        *end = q + y.size();
    return b.substr(p + x.size(), q - p - x.size());
}
static Bytes unescape(const Bytes& b) {
    Bytes r;
    for (size_t i = 0; i < b.size(); i++) {
        if (b[i] == '<' || b[i] == '>')
            r += "\x01"; // not escaped
        else if (b[i] != '&')
            r += b[i];
        else {
            size_t q = b.find(';', i);
            Bytes n = q == Bytes::npos ? "" : b.substr(i + 1, q - i - 1);
            if (n == "amp" || n == "lt" || n == "gt" || n == "quot" || n == "#39" || n == "apos") {
                r += n == "amp" ? '&' : n == "lt" ? '<' : n == "gt" ? '>' : n == "quot" ? '"' : '\'';
                i = q;
            } else
                r += "\x02";
        }
    }
    return r;
}
static std::string tf(bool b) {
    return b ? "true" : "false";
}
static std::string responseJSON(const Response& r) {
    const Bytes& b = r.body;
    Ev o("");
    o.s = "{\"code\":" + std::to_string(r.code);
    o.raw("reason", jb(r.reason)).t("te", r.te).t("ok", r.ok).raw("ctype", jb(r.ctype)).i("hdr", (long long) r.hdr).i("len", (long long) b.size());
    bool pat = true;
    for (size_t i = 0; i < b.size(); i++)
        pat = pat && b[i] == pattern(i);
    o.t("pat", pat).raw("body", jb(b.size() <= 400 ? b : Bytes{}));
    bool isPage = b.find("class=\"sidebar\"") != Bytes::npos, isRows = b.find("<tbody>") != Bytes::npos;
    o.str("shape", isPage ? "page" : isRows ? "rows" : b.find("<title>Echo</title>") != Bytes::npos ? "echo" : "other");
    Bytes title = between(b, "<title>", "</title>");
    o.raw("title", isRows ? jb(unescape(title)) : jb(title));
    Bytes content = b;
    if (!isPage && !isRows) { // a page without the rest: the title on a line of its own
        size_t nl = b.find('\n');
        if (nl != Bytes::npos) {
            o.raw("title2", jb(b.substr(0, nl)));
        } else
            o.raw("title2", "[]");
    } else
        o.raw("title2", "[]");
    size_t h = b.find("<h1>");
    Bytes h1, art;
    if (h != Bytes::npos && (!isPage || (h = b.find("<h1>", b.find("<article"))) != Bytes::npos)) {
        size_t q = b.find("</h1>\n", h);
        if (q != Bytes::npos) {
            h1 = b.substr(h + 4, q - h - 4);
            art = b.substr(q + 6);
            size_t e = art.find("\n  </article>");
            if (isPage)
                art = e == Bytes::npos ? "?" : art.substr(0, e);
        }
    }
    o.raw("h1", jb(h1)).raw("art", jb(art.size() <= 400 ? art : Bytes{}));
    // rows of a source page
    std::string rows = "[";
    if (isRows) {
        Bytes t = between(b, "<tbody>\n", "</tbody>");
        size_t p = 0, n = 0;
        while (p < t.size()) {
            n++;
            std::string k = std::to_string(n);
            Bytes pre = "<tr><td id=\"L" + k + "\">" + k + "</td><td id=\"LC" + k + "\">";
            size_t q = t.find("</td></tr>", p);
            if (t.compare(p, pre.size(), pre) != 0 || q == Bytes::npos) {
                rows += std::string(n > 1 ? "," : "") + "[-1]";
                break;
            }
            rows += (n > 1 ? "," : "") + jb(unescape(t.substr(p + pre.size(), q - p - pre.size())));
            p = q + 10;
        }
    }
    o.raw("rows", rows + "]");
    // the table of contents: <ul>, <a>, <li class> and <span> in any order that makes sense
    std::string toc = "[";
    if (isPage) {
        size_t s = b.find("class=\"sidebar\""), e = b.find("<article");
        Bytes t = b.substr(s, e - s);
        std::vector<std::string> out;
        int depth = 0;
        Bytes link;
        bool sel = false, caret = false, down = false;
        Bytes ttl;
        for (size_t p = 0; (p = t.find('<', p)) != Bytes::npos;) {
            size_t q = t.find('>', p);
            Bytes tag = t.substr(p + 1, q - p - 1);
            if (tag.compare(0, 2, "ul") == 0) {
                depth++;
                if (depth > 1 && out.size()) {
                    bool act = (" " + between(tag, "class=\"", "\"") + " ").find(" active ") != Bytes::npos;
                    out.back() = out.back().substr(0, out.back().find(",\"active\":")) + ",\"active\":" + tf(act) + "}";
                }
            } else if (tag == "/ul")
                depth--;
            else if (tag.compare(0, 2, "a ") == 0)
                link = between(tag, "href=\"", "\"");
            else if (tag == "/a")
                link.clear();
            else if (tag.compare(0, 2, "li") == 0) {
                Bytes c = " " + between(tag, "class=\"", "\"") + " ";
                sel = c.find(" selected ") != Bytes::npos;
                caret = c.find(" caret ") != Bytes::npos;
                down = c.find(" caret-down ") != Bytes::npos;
            } else if (tag == "span")
                ttl = t.substr(q + 1, t.find('<', q) - q - 1);
            else if (tag == "/li")
                out.push_back("{\"d\":" + std::to_string(depth) + ",\"title\":" + jb(unescape(ttl)) + ",\"link\":" + jb(link) + ",\"sel\":" + tf(sel) + ",\"caret\":" + tf(caret) + ",\"down\":" + tf(down) + ",\"active\":false}");
            p = q;
        }
        for (size_t i = 0; i < out.size(); i++)
            toc += (i ? "," : "") + out[i];
    }
    o.raw("toc", toc + "]");
    return o.s + "}";
}

struct Client {
    int s = -1, port = 0;
    Bytes sent, got;
    size_t pos = 0; // of the first response not yet parsed
    size_t answered = 0;
    std::vector<std::string> resps;
    bool eof = false;
};
static std::map<int, Client> g_clients;

// reads what is there within the time; false at the end of the stream
static bool readSome(Client& c, int ms) {
    pollfd p = {c.s, POLLIN, 0};
    int r = poll(&p, 1, ms);
    if (r == 0)
        return true;
    char buf[65536];
    ssize_t n = ::read(c.s, buf, sizeof(buf));
    if (n <= 0) {
        c.eof = true;
        return false;
    }
    c.got.append(buf, (size_t) n);
    return true;
}
static void drain(Client& c) {
    for (;;) {
        Response r;
        size_t p = c.pos;
        if (!parseResponse(c.got, p, c.eof, r))
            return;
        c.resps.push_back(responseJSON(r));
        c.pos = p;
        c.answered++;
        if (p == c.got.size())
            return;
    }
}
static void sendAll(Client& c, const Bytes& b) {
    size_t i = 0;
    while (i < b.size()) {
        ssize_t n = send(c.s, b.data() + i, b.size() - i, MSG_NOSIGNAL);
        if (n <= 0)
            break; // the server has closed the connection already
        i += (size_t) n;
    }
    c.sent += b;
}

//---------------------------------------------------------------- the folders
static void mkdirs(const std::string& p) {
    for (size_t i = 1; i <= p.size(); i++)
        if (i == p.size() || p[i] == '/')
            mkdir(p.substr(0, i).c_str(), 0755);
}
static void writeFile(const std::string& p, const Bytes& d) {
    mkdirs(p.substr(0, p.rfind('/')));
    FILE* f = fopen(p.c_str(), "wb");
    if (!f)
        toolError("cannot create file");
    fwrite(d.data(), 1, d.size(), f);
    fclose(f);
}
static int g_clock = 1000000;
static void touch(const std::string& p) {
    timespec t[2];
    t[0].tv_sec = t[1].tv_sec = ++g_clock;
    t[0].tv_nsec = t[1].tv_nsec = 0;
    utimensat(AT_FDCWD, p.c_str(), t, 0);
}
struct Node {
    int d;
    Bytes title, link;
};
static std::string quoted(const Bytes& b) {
    std::string r = "\"";
    for (char c : b) {
        if (c == '"' || c == '\\')
            r += '\\';
        r += c;
    }
    return r + "\"";
}
static std::string pylonOf(const std::vector<Node>& n, size_t& k, int d, bool terse) {
    std::string r = "[\n";
    while (k < n.size() && n[k].d == d) {
        const Node& x = n[k++];
        r += "{ title: " + quoted(x.title);
        if (!terse || x.link.size())
            r += ", linkDestination: " + quoted(x.link);
        std::string kids = pylonOf(n, k, d + 1, terse);
        if (!terse || kids != "[\n]")
            r += ", children: " + kids;
        r += " }\n";
    }
    return r + "]";
}
static void replaceFile(const std::string& p, const Bytes& d) { // at once, as a maker of documents would
    writeFile(p + ".new", d);
    touch(p + ".new");
    rename((p + ".new").c_str(), p.c_str());
}

static int g_num = 0;
void runCommand(const Cmd& c) {
    const std::string& op = c.op();
    if (op == "reset") { // 4 or 6
        static bool started = false;
        for (auto& x : g_clients)
            close(x.second.s);
        g_clients.clear();
        g_dir = g_scratch + "/r" + std::to_string(g_num++);
        mkdirs(g_dir + "/root/pages");
        mkdirs(g_dir + "/ws");
        AllParams* p = new AllParams;
        String root = sv(g_dir + "/root");
        p->fileSys.rootDir = root;
        p->docs.init(root);
        p->sourceCode.rootDir = sv(g_dir + "/ws");
        g_params = p;
        if (!started) {
            startServer(c.n() > 0 && c.s(0) == "6");
            started = true;
        }
        Ev("reset").out();
    } else if (op == "file") { // path below the scratch folder (hex), contents
        Bytes p = c.b(0), d = c.b(1);
        writeFile(g_dir + "/" + p, d);
        Ev("file").raw("path", [&] {
                      std::string r = "[", n;
                      bool first = true;
                      for (size_t i = 0; i <= p.size(); i++) {
                          if (i == p.size() || p[i] == '/') {
                              r += (first ? "" : ",") + jb(n);
                              first = false;
                              n.clear();
                          } else
                              n += p[i];
                      }
                      return r + "]";
                  }())
            .b("data", d)
            .out();
    } else if (op == "toc") { // full|terse, then depth title link of each entry
        std::vector<Node> n;
        std::string j = "[";
        for (size_t i = 1; i + 2 < c.n(); i += 3) {
            n.push_back({(int) c.i(i), c.b(i + 1), c.b(i + 2)});
            j += (n.size() > 1 ? "," : "") + std::string("{\"d\":") + std::to_string(n.back().d) + ",\"title\":" + jb(n.back().title) + ",\"link\":" + jb(n.back().link) + "}";
        }
        size_t k = 0;
        replaceFile(g_dir + "/root/contents.pylon", pylonOf(n, k, 1, c.s(0) == "terse"));
        Ev("toc").raw("nodes", j + "]").out();
    } else if (op == "badtoc") {
        replaceFile(g_dir + "/root/contents.pylon", c.b(0));
        Ev("badtoc").out();
    } else if (op == "notoc") {
        unlink((g_dir + "/root/contents.pylon").c_str());
        Ev("notoc").out();
    } else if (op == "init") { // a server that is started anew
        AllParams* p = new AllParams;
        String root = sv(g_dir + "/root");
        p->fileSys.rootDir = root;
        p->docs.init(root);
        p->sourceCode.rootDir = sv(g_dir + "/ws");
        g_params = p;
        Ev("init").out();
    } else if (op == "open") {
        Client k;
        k.s = connectTo();
        if (k.s < 0)
            endless("the server takes no connection");
        k.port = portOf(k.s);
        {
            std::lock_guard<std::mutex> g{g_mutex};
            g_handled.erase(k.port);
        }
        g_clients[(int) c.i(0)] = k;
    } else if (op == "send") {
        sendAll(g_clients[(int) c.i(0)], c.b(1));
    } else if (op == "pause") {
        usleep((useconds_t) c.i(0));
    } else if (op == "expect") { // that many answers arrive while the connection stays open
        Client& k = g_clients[(int) c.i(0)];
        for (int i = 0; i < 200; i++) {
            drain(k);
            if (k.answered >= (size_t) c.i(1) || k.eof)
                break;
            readSome(k, 100);
        }
        Ev("answered").b("in", k.sent).i("n", (long long) k.answered).out();
    } else if (op == "finish") {
        Client& k = g_clients[(int) c.i(0)];
        shutdown(k.s, SHUT_WR);
        for (int i = 0; readSome(k, 100); i++)
            if (i > 50000 || (i > 300 && k.got.empty()))
                endless("no end of the answers");
        drain(k);
        close(k.s);
        std::string h = "[", rs = "[";
        bool addr = true, path = true;
        {
            std::lock_guard<std::mutex> g{g_mutex};
            bool first = true;
            for (const Handled& x : g_handled[k.port]) {
                std::string f = "[";
                for (size_t i = 0; i < x.fields.size(); i++)
                    f += (i ? ",[" : "[") + jb(x.fields[i].first) + "," + jb(x.fields[i].second) + "]";
                h += std::string(first ? "" : ",") + "{\"method\":" + jb(x.method) + ",\"uri\":" + jb(x.uri) + ",\"ver\":" + jb(x.ver) + ",\"fields\":" + f + "]}";
                first = false;
                addr = addr && x.addr == "127.0.0.1";
                path = path && x.path == x.uri;
            }
        }
        for (size_t i = 0; i < k.resps.size(); i++)
            rs += (i ? "," : "") + k.resps[i];
        Ev("conn").b("in", k.sent).raw("handled", h + "]").raw("resps", rs + "]").i("rest", (long long) (k.got.size() - k.pos)).t("addr", addr).t("path", path).out();
        g_clients.erase((int) c.i(0));
    } else if (op == "reset_conn" || op == "drop") {
        Client& k = g_clients[(int) c.i(0)];
        if (op == "reset_conn") {
            linger l = {1, 0};
            setsockopt(k.s, SOL_SOCKET, SO_LINGER, &l, sizeof(l));
        }
        close(k.s);
        g_clients.erase((int) c.i(0));
        Ev("drop").out();
    } else if (op == "urlesc") {
        Bytes b = c.b(0);
        String r = String::format("{}", web::URLEscape{sv(b)});
        Ev("urlesc").b("in", b).b("got", bytes(r)).out();
    } else if (op == "storm") { // pages are read while the table of contents changes: titles with one number
        int rounds = (int) c.i(0), nthreads = (int) c.i(1), entriesInAll = (int) c.i(2);
        std::atomic<bool> stop{false};
        std::atomic<int> torn{0}, n{0};
        auto toc = [&](int v) {
            std::vector<Node> t;
            for (int i = 0; i < entriesInAll; i++)
                t.push_back({1 + (i % 3), "v" + std::to_string(v) + "-" + std::string((size_t) (v % 37), 'x'), "/docs/p" + std::to_string(i)});
            size_t k = 0;
            replaceFile(g_dir + "/root/contents.pylon", pylonOf(t, k, 1, false));
        };
        toc(0);
        std::vector<std::thread> ts;
        for (int t = 0; t < nthreads; t++)
            ts.emplace_back([&, t] {
                while (!stop) {
                    Client k;
                    k.s = connectTo();
                    if (k.s < 0)
                        continue;
                    const int asked = 25;
                    for (int i = 0; i < asked; i++)
                        sendAll(k, "GET /docs/p" + std::to_string((t + i) % 12) + " HTTP/1.1\r\n\r\n");
                    shutdown(k.s, SHUT_WR);
                    for (int i = 0; readSome(k, 100) && i < 300; i++) {
                    }
                    close(k.s);
                    if (k.got.empty()) // the queue of the listening socket is short
                        continue;
                    Response r;
                    int answers = 0;
                    for (size_t q = 0; parseResponse(k.got, q, true, r); answers++) {
                        std::string first;
                        int entries = 0;
                        for (size_t p = 0; (p = r.body.find("<span>v", p)) != Bytes::npos; p++) {
                            std::string x = r.body.substr(p, r.body.find("</span>", p) - p);
                            if (!entries)
                                first = x;
                            entries++;
                            if (x != first)
                                torn++;
                        }
                        if (entries != entriesInAll)
                            torn++;
                    }
                    if (answers != asked)
                        torn++;
                    n++;
                }
            });
        for (int i = 1; i <= rounds; i++) {
            toc(i);
            usleep(2000);
        }
        stop = true;
        for (auto& t : ts)
            t.join();
        // what was written last is what is shown from now on
        std::string j = "[";
        for (int i = 0; i < entriesInAll; i++)
            j += (i ? "," : "") + std::string("{\"d\":") + std::to_string(1 + i % 3) + ",\"title\":" + jb("v" + std::to_string(rounds) + "-" + std::string((size_t) (rounds % 37), 'x')) + ",\"link\":" + jb("/docs/p" + std::to_string(i)) + "}";
        Ev("storm").i("torn", torn).t("any", n > 0).raw("nodes", j + "]").out();
    } else
        toolError("unknown command");
}

static void start() {
    char tmpl[] = "/tmp/plywebXXXXXX";
    if (!mkdtemp(tmpl))
        toolError("mkdtemp");
    g_scratch = tmpl;
}
static bool g_set = (g_afterOpen = start, true);

void finishRun() {
    std::string cmd = "rm -rf -- '" + g_scratch + "'";
    if (g_scratch.compare(0, 12, "/tmp/plyweb0") != 0 && g_scratch.compare(0, 11, "/tmp/plyweb") == 0 && g_scratch.find('\'') == std::string::npos)
        if (system(cmd.c_str())) {
        }
    fflush(nullptr);
    _exit(0); // the server never ends
}
