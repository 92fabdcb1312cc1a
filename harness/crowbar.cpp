// Reads and runs Crowbar scripts.
#include "harness.h"
#include <ply-crowbar/Parser.h>
#include <ply-crowbar/Interpreter.h>
#include <ply-runtime/Base.h>
#include <ply-runtime/string/TextEncoding.h>
#include <ply-reflect/Base.h>
using namespace ply;
using namespace ply::crowbar;

static std::string quote(StringView v) { // every byte as one character
    std::string s = "\"";
    char b[8];
    for (u32 i = 0; i < v.numBytes; i++) {
        u8 c = (u8) v.bytes[i];
        if (c >= 32 && c < 127 && c != '"' && c != '\\')
            s += (char) c;
        else {
            snprintf(b, sizeof(b), "\\u%04x", c);
            s += b;
        }
    }
    return s + "\"";
}
static std::string label(Label l) {
    return quote(LabelMap::instance.view(l));
}
static std::string num(u32 v) {
    return "[" + std::to_string(v >> 16) + "," + std::to_string(v & 0xffff) + "]";
}
template <class T, class F>
static std::string list(const T& a, F f) {
    std::string s;
    for (const auto& x : a)
        s += (s.empty() ? "" : ",") + f(x);
    return "[" + s + "]";
}

// ---- the tree ----
static std::string show(const Expression* x) {
    if (!x)
        return "{\"k\":\"nothing\"}";
    switch (x->id) {
        case Expression::ID::NameLookup: return "{\"k\":\"n\",\"s\":" + label(x->nameLookup()->name) + "}";
        case Expression::ID::IntegerLiteral: return "{\"k\":\"i\",\"n\":" + num(x->integerLiteral()->value) + "}";
        case Expression::ID::InterpolatedString: {
            std::string s;
            for (const auto& p : x->interpolatedString()->pieces) {
                if (p.literal.numBytes || !p.embed)
                    s += (s.empty() ? "" : ",") + ("{\"l\":" + quote(p.literal) + "}");
                if (p.embed)
                    s += (s.empty() ? "" : ",") + ("{\"x\":" + show(p.embed) + "}");
            }
            return "{\"k\":\"s\",\"p\":[" + s + "]}";
        }
        case Expression::ID::PropertyLookup:
            return "{\"k\":\"p\",\"o\":" + show(x->propertyLookup()->obj) + ",\"s\":" + label(x->propertyLookup()->propertyName) + "}";
        case Expression::ID::BinaryOp:
            return "{\"k\":\"b\",\"op\":" + quote(MethodTable::binaryOpToString(x->binaryOp()->op)) + ",\"l\":" + show(x->binaryOp()->left) +
                   ",\"r\":" + show(x->binaryOp()->right) + "}";
        case Expression::ID::UnaryOp:
            return "{\"k\":\"u\",\"op\":" + quote(MethodTable::unaryOpToString(x->unaryOp()->op)) + ",\"x\":" + show(x->unaryOp()->expr) + "}";
        case Expression::ID::Call:
            return "{\"k\":\"c\",\"f\":" + show(x->call()->callable) + ",\"a\":" +
                   list(x->call()->args, [](const Owned<Expression>& a) { return show(a); }) + "}";
        default: return "{\"k\":\"?\"}";
    }
}
static std::string show(const StatementBlock* b) {
    if (!b)
        return "[]";
    return list(b->statements, [](const Owned<Statement>& st) -> std::string {
        const Statement* s = st;
        switch (s->id) {
            case Statement::ID::If_:
                return "{\"k\":\"if\",\"c\":" + show(s->if_()->condition) + ",\"t\":" + show(s->if_()->trueBlock) + ",\"h\":" +
                       (s->if_()->falseBlock ? "true" : "false") + ",\"e\":" + show(s->if_()->falseBlock) + "}";
            case Statement::ID::While_: return "{\"k\":\"wh\",\"c\":" + show(s->while_()->condition) + ",\"t\":" + show(s->while_()->block) + "}";
            case Statement::ID::Assignment:
                return "{\"k\":\"as\",\"l\":" + show(s->assignment()->left) + ",\"r\":" + show(s->assignment()->right) + "}";
            case Statement::ID::Evaluate: return "{\"k\":\"ev\",\"x\":" + show(s->evaluate()->expr) + "}";
            case Statement::ID::Return_: return "{\"k\":\"ret\",\"x\":" + show(s->return_()->expr) + "}";
            default: return "{\"k\":\"?\"}";
        }
    });
}
static std::string showFile(const StatementBlock* file) {
    return list(file->statements, [](const Owned<Statement>& st) -> std::string {
        if (st->id != Statement::ID::FunctionDefinition)
            return "{\"k\":\"?\"}";
        const auto* f = st->functionDefinition().get();
        return "{\"n\":" + label(f->name) + ",\"p\":" + list(f->parameterNames, [](Label l) { return label(l); }) + ",\"b\":" + show(f->body) + "}";
    });
}

struct ErrorList : Parser::Hooks {
    std::vector<Bytes> list;
    virtual void onError(StringView msg) override {
        this->list.push_back(bytes(msg));
    }
};

// ---- the host ----
struct HostObject {
    PLY_REFLECT()
    String name;
    u32 value = 0;
    // ply reflect off
};
PLY_STRUCT_BEGIN(HostObject)
PLY_STRUCT_MEMBER(name)
PLY_STRUCT_MEMBER(value)
PLY_STRUCT_END()

static MethodResult doPrint(BaseInterpreter* interp, const AnyObject& arg) {
    interp->returnValue = {};
    if (arg.is<u32>())
        *interp->outs << *arg.cast<u32>() << '\n';
    else if (arg.is<bool>())
        *interp->outs << *arg.cast<bool>() << '\n';
    else if (arg.is<String>())
        *interp->outs << *arg.cast<String>() << '\n';
    else
        return MethodTable::unsupportedPrint(interp, arg, {});
    return MethodResult::OK;
}

struct Report {
    std::string message, at, fn;
};
static std::vector<Report> g_reports;
static Tokenizer* g_tkr;

static void onRunError(BaseInterpreter* base, StringView message) {
    Interpreter* interp = static_cast<Interpreter*>(base);
    Report r;
    r.message = quote(message);
    for (Interpreter::StackFrame* frame = interp->currentFrame; frame; frame = frame->prevFrame) {
        ExpandedToken tok = interp->tkr->expandToken(frame->tokenIdx);
        FileLocation loc = interp->tkr->fileLocationMap.getFileLocation(tok.fileOffset);
        r.at += (r.at.empty() ? "[" : ",[") + std::to_string(loc.lineNumber) + "," + std::to_string(loc.columnNumber) + "]";
        r.fn += (r.fn.empty() ? "" : ",") + label(frame->functionDef->name);
    }
    g_reports.push_back(r);
}

static std::string run(Tokenizer& tkr, const StatementBlock* file, const Bytes& name, u32 value) {
    static bool true_ = true, false_ = false;
    true_ = true;
    false_ = false;
    std::string before = showFile(file);
    HashMap<VariableMapTraits> builtIns;
    builtIns.insertOrFind(LabelMap::instance.insertOrFind("print"))->obj = AnyObject::bind(doPrint);
    builtIns.insertOrFind(LabelMap::instance.insertOrFind("true"))->obj = AnyObject::bind(&true_);
    builtIns.insertOrFind(LabelMap::instance.insertOrFind("false"))->obj = AnyObject::bind(&false_);
    HashMap<VariableMapTraits> ns;
    for (const Statement* st : file->statements) {
        const auto* fn = st->functionDefinition().get();
        ns.insertOrFind(fn->name)->obj = AnyObject::bind(fn);
    }
    HostObject host;
    host.name = sv(name);
    host.value = value;
    g_reports.clear();
    MemOutStream outs;
    bool returned;
    {
        Interpreter interp;
        interp.outs = &outs;
        interp.outerNameSpaces.append(&builtIns);
        interp.outerNameSpaces.append(&ns);
        interp.error = onRunError;
        interp.tkr = &tkr;
        Interpreter::StackFrame frame;
        frame.interp = &interp;
        const auto* fn = ns.find(LabelMap::instance.find("test"))->obj.cast<Statement::FunctionDefinition>();
        frame.functionDef = fn;
        if (fn->parameterNames.numItems() > 0)
            frame.localVariableTable.insertOrFind(fn->parameterNames[0])->obj = AnyObject::bind(&host);
        returned = execFunction(&frame, fn->body) == MethodResult::OK;
    }
    String out = outs.moveToString();
    std::string reps;
    for (const Report& r : g_reports)
        reps += (reps.empty() ? "" : ",") + ("{\"m\":" + r.message + ",\"at\":[" + r.at + "],\"fn\":[" + r.fn + "]}");
    return "{\"name\":" + quote(sv(name)) + ",\"value\":" + num(value) + ",\"out\":" + quote(out) + ",\"rep\":[" + reps + "],\"ok\":" +
           (returned ? "true" : "false") + ",\"name2\":" + quote(host.name) + ",\"value2\":" + num(host.value) + ",\"same\":" +
           (before == showFile(file) && true_ && !false_ ? "true" : "false") + "}";
}

void runCommand(const Cmd& c) {
    const std::string& op = c.op();
    if (op == "reset") {
        Ev("reset").out();
    } else if (op == "prog") { // program, separators, text, then name and value for every run
        Bytes p = c.b(0), seps = c.b(1), text = c.b(2);
        Ev ev("prog");
        ev.raw("p", p).raw("seps", seps).raw("text", quote(sv(text))).raw("type", quote(getTypeDescriptor<HostObject>()->getName()));
        Tokenizer tkr;
        // a copy of the exact size, so that reading past its end is noticed
        std::unique_ptr<char[]> copy{new char[text.size()]};
        memcpy(copy.get(), text.data(), text.size());
        tkr.setSourceInput({copy.get(), (u32) text.size()});
        Parser parser;
        parser.tkr = &tkr;
        ErrorList errs;
        parser.hooks = &errs;
        Owned<StatementBlock> file = parser.parseFile();
        ev.raw("tree", showFile(file));
        ev.raw("errs", list(errs.list, [](const Bytes& b) { return quote(sv(b)); }));
        std::string runs;
        if (errs.list.empty()) {
            for (size_t k = 3; k + 1 < c.n(); k += 2)
                runs += (runs.empty() ? "" : ",") + run(tkr, file, c.b(k), (u32) c.i(k + 1));
        }
        ev.raw("runs", "[" + runs + "]").out();
    } else if (op == "any") {
        Bytes text = c.b(0);
        std::unique_ptr<char[]> copy{new char[text.size()]};
        memcpy(copy.get(), text.data(), text.size());
        Tokenizer tkr;
        tkr.setSourceInput({copy.get(), (u32) text.size()});
        Parser parser;
        parser.tkr = &tkr;
        ErrorList errs;
        parser.hooks = &errs;
        Owned<StatementBlock> file = parser.parseFile();
        if (errs.list.empty())
            showFile(file);
        std::vector<int> lines(1);
        for (char ch : text) {
            if (ch == '\n')
                lines.push_back(0);
            else
                lines.back()++;
        }
        std::string at;
        for (const Bytes& b : errs.list) {
            int l = 0, col = 0, n = 0;
            if (sscanf(b.c_str(), "(%d, %d) error: %n", &l, &col, &n) != 2 || n == 0)
                l = 0;
            at += (at.empty() ? "[" : ",[") + std::to_string(l) + "," + std::to_string(col) + "]";
        }
        Ev("any").b("text", text).a("lines", lines).raw("at", "[" + at + "]").out();
    } else if (op == "loc") { // the places of all characters, and of the end
        Bytes text = c.b(0);
        FileLocationMap map = FileLocationMap::fromView(sv(text));
        std::vector<u32> cps;
        std::string at;
        StringView v = sv(text);
        for (;;) {
            FileLocation loc = map.getFileLocation((u32)(v.bytes - text.data()));
            at += (at.empty() ? "[" : ",[") + std::to_string(loc.lineNumber) + "," + std::to_string(loc.columnNumber) + "]";
            if (v.numBytes == 0)
                break;
            DecodeResult d = UTF8::decodePoint(v);
            cps.push_back(d.point);
            v.offsetHead(d.numBytes);
        }
        Ev("loc").a("cps", cps).raw("at", "[" + at + "]").out();
    } else
        toolError("unknown command");
}
void finishRun() {
}
