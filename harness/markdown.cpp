// Parses markdown texts and shows the resulting trees and HTML.
#include "harness.h"
#include <ply-runtime/Base.h>
#include <web-markdown/Markdown.h>
using namespace ply;
typedef markdown::Node Node;

static std::string quote(StringView v) { // every byte as one character
    std::string s = "\"";
    char b[8];
    for (u32 i = 0; i < v.numBytes; i++) {
        u8 c = (u8) v.bytes[i];
        if (c >= 32 && c < 127 && c != '"' && c != '\\')
            s += (char) c;
        else {
            snprintf(b, sizeof(b), "\\u%04x", c);
            s += b;
        }
    }
    return s + "\"";
}

static std::string show(const Node* n) {
    const char* k = "?";
    std::string more;
    switch (n->type) {
        case Node::Document: k = "doc"; break;
        case Node::List:
            k = "l";
            more = ",\"n\":" + std::to_string(n->listStartNumber < 0 ? -1 : n->listStartNumber) + ",\"lo\":" + (n->isLoose ? "true" : "false");
            break;
        case Node::ListItem: k = "i"; break;
        case Node::BlockQuote: k = "q"; break;
        case Node::Heading:
            k = "h";
            more = ",\"n\":" + std::to_string(n->indentOrLevel);
            break;
        case Node::Paragraph: k = "p"; break;
        case Node::CodeBlock: {
            String s;
            for (const String& line : n->rawLines)
                s += line;
            if (n->children.numItems() > 0)
                return "{\"k\":\"code with children\"}";
            return "{\"k\":\"pre\",\"s\":" + quote(s) + "}";
        }
        case Node::Text: return "{\"k\":\"t\",\"s\":" + quote(n->text) + "}";
        case Node::CodeSpan: return "{\"k\":\"cs\",\"s\":" + quote(n->text) + "}";
        case Node::SoftBreak: return "{\"k\":\"br\"}";
        case Node::Link:
            k = "a";
            more = ",\"s\":" + quote(n->text);
            break;
        case Node::Emphasis: k = "em"; break;
        case Node::Strong: k = "st"; break;
    }
    std::string c;
    for (const Node* child : n->children) {
        if (child->parent != n)
            return "{\"k\":\"wrong parent\"}";
        c += (c.empty() ? "" : ",") + show(child);
    }
    return std::string("{\"k\":\"") + k + "\"" + more + ",\"c\":[" + c + "]}";
}

static void setIds(Node* n, u32& count) {
    if (n->type == Node::Heading)
        n->id = String::format("id<{}>", count++);
    for (Node* c : n->children)
        setIds(c, count);
}

void runCommand(const Cmd& c) {
    const std::string& op = c.op();
    if (op == "reset") {
        Ev{"reset"}.out();
        return;
    }
    // doc <doc as json> <text>: a text that was made from a document;  any <text>
    bool made = op == "doc";
    if (!made && op != "any")
        toolError(("unknown op " + op).c_str());
    Bytes text = c.b(made ? 1 : 0);
    // the tree must not depend on the text after parsing
    char* copy = (char*) malloc(text.size());
    memcpy(copy, text.data(), text.size());
    Owned<Node> tree = markdown::parse(StringView{copy, (u32) text.size()});
    free(copy);
    Ev ev{op.c_str()};
    if (made)
        ev.raw("d", c.b(0));
    ev.raw("text", quote(StringView{text.data(), (u32) text.size()}));
    ev.raw("tree", show(tree));
    auto html = [&](bool anchors) {
        MemOutStream outs;
        markdown::HTMLOptions options;
        options.childAnchors = anchors;
        markdown::convertToHTML(&outs, tree, options);
        return quote(outs.moveToString());
    };
    ev.raw("html", html(false));
    u32 count = 0;
    setIds(tree, count);
    ev.raw("ids", html(false)).raw("anchors", html(true));
    ev.out();
}

void finishRun() {
}
