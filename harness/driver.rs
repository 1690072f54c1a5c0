// Drives the schema front end (xsd_internal), the decoding cursor (xsd::decode) and the
// writer context (xsd::Context) directly.  One JSON line per case.
#![allow(warnings)]
#[path = "/verif/harness/rt.rs"]
mod rt;
use quote::ToTokens;
use rt::{js, Out};
use std::collections::{BTreeMap, HashSet};
use xsd_internal::ast::{Name, Namespace};
use xsd_internal::xsd::schema::{ParseError, Schema, SchemaError};

fn squeeze(t: impl ToTokens) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

fn list(items: &[String]) -> String {
    format!("[{}]", items.join(","))
}
fn q(s: &str) -> String {
    let mut o = String::new();
    js(&mut o, s);
    o
}

fn docs(attrs: &[syn::Attribute]) -> String {
    let mut v = Vec::new();
    for a in attrs {
        if a.path().is_ident("doc") {
            if let syn::Meta::NameValue(nv) = &a.meta {
                if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = &nv.value {
                    v.push(q(&s.value()));
                    continue;
                }
            }
            v.push(q(&squeeze(a)));
        }
    }
    list(&v)
}
fn derives(attrs: &[syn::Attribute]) -> String {
    let mut v = Vec::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            v.push(q(&squeeze(a)));
        }
    }
    list(&v)
}

fn fields(f: &syn::Fields) -> String {
    let v: Vec<String> = f
        .iter()
        .enumerate()
        .map(|(i, f)| {
            format!(
                "[{},{},{},{}]",
                q(&f.ident.as_ref().map(|i| i.to_string()).unwrap_or_else(|| i.to_string())),
                q(&squeeze(&f.ty)),
                docs(&f.attrs),
                q(&squeeze(&f.vis)),
            )
        })
        .collect();
    list(&v)
}

fn describe(tokens: proc_macro2::TokenStream) -> Result<String, String> {
    let file: syn::File = syn::parse2(tokens).map_err(|e| e.to_string())?;
    let mut out = Vec::new();
    for i in file.items {
        let code = squeeze(&i);
        let h = code.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
        let mut d = (match i {
            syn::Item::Struct(s) => format!(
                "{{\"kind\":\"struct\",\"name\":{},\"docs\":{},\"derives\":{},\"vis\":{},\"members\":{},\"tuple\":{}}}",
                q(&s.ident.to_string()),
                docs(&s.attrs),
                derives(&s.attrs),
                q(&squeeze(&s.vis)),
                fields(&s.fields),
                matches!(s.fields, syn::Fields::Unnamed(_))
            ),
            syn::Item::Enum(s) => {
                let v: Vec<String> = s
                    .variants
                    .iter()
                    .map(|v| {
                        format!(
                            "[{},{},{}]",
                            q(&v.ident.to_string()),
                            q(&v.fields.iter().map(|f| squeeze(&f.ty)).collect::<Vec<_>>().join(";")),
                            docs(&v.attrs)
                        )
                    })
                    .collect();
                format!(
                    "{{\"kind\":\"enum\",\"name\":{},\"docs\":{},\"derives\":{},\"vis\":{},\"members\":{}}}",
                    q(&s.ident.to_string()),
                    docs(&s.attrs),
                    derives(&s.attrs),
                    q(&squeeze(&s.vis)),
                    list(&v)
                )
            }
            syn::Item::Impl(s) => {
                let fns: Vec<String> = s
                    .items
                    .iter()
                    .map(|i| match i {
                        syn::ImplItem::Fn(f) => q(&f.sig.ident.to_string()),
                        _ => q("?"),
                    })
                    .collect();
                format!(
                    "{{\"kind\":\"impl\",\"name\":{},\"trait\":{},\"fns\":{}}}",
                    q(&squeeze(&s.self_ty)),
                    q(&s.trait_.as_ref().map(|(_, p, _)| squeeze(p)).unwrap_or_default()),
                    list(&fns)
                )
            }
            other => format!("{{\"kind\":\"other\",\"name\":{}}}", q(&squeeze(other))),
        });
        d.pop();
        d.push_str(&format!(",\"code\":\"{:016x}\"}}", h));
        out.push(d);
    }
    out.sort();
    Ok(list(&out))
}

fn fnv(t: &proc_macro2::TokenStream) -> String {
    let hash = t.to_string().bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
    format!("{:x}", hash)
}

fn put_err(out: &mut Out, e: &SchemaError) {
    match e {
        SchemaError::Xsd { err, file, row, col } => {
            out.put("err", "Xsd");
            out.put("detail", &format!("{:?}", err));
            out.put("file", file);
            out.num("row", *row as usize);
            out.num("col", *col as usize);
        }
        SchemaError::Open { err, file } => {
            out.put("err", "Open");
            out.put("file", file);
            out.put("detail", &format!("{:?}", err.kind()));
        }
        SchemaError::NotFound { name } => {
            out.put("err", "NotFound");
            out.put("name", name);
        }
        #[allow(unreachable_patterns)]
        _ => out.put("err", "Other"),
    }
    out.put("msg", &e.to_string());
    let mut src = Vec::new();
    let mut s = std::error::Error::source(e);
    while let Some(x) = s {
        src.push(q(&x.to_string()));
        s = x.source();
    }
    out.s.push_str(",\"sources\":");
    out.s.push_str(&list(&src));
}

fn generate(schema: &Schema, out: &mut Out) {
    match schema.generate_all() {
        Err(e) => {
            out.put("stage", "generate");
            put_err(out, &e);
        }
        Ok(t) => match describe({
            // (FNV: the text as a whole, in the order it was generated)
            out.put("hash", &fnv(&t));
            t
        }) {
            Ok(d) => {
                out.s.push_str(",\"items\":");
                out.s.push_str(&d);
            }
            Err(e) => out.put("notrust", &e),
        },
    }
}

fn both(res: Result<Schema, SchemaError>, out: &mut Out) {
    match res {
        Err(e) => {
            out.put("stage", "parse");
            put_err(out, &e)
        }
        Ok(s) => generate(&s, out),
    }
}

/// "path\ntext"
fn op_parse(doc: &str, out: &mut Out) {
    let (path, text) = doc.split_once('\n').unwrap();
    both(Schema::parse(text, path), out)
}
fn op_file(doc: &str, out: &mut Out) {
    both(Schema::parse_file(doc), out)
}

/// files that change between the calls: "main \x01 path \x01 content \x01 path \x01 content ..."; parsed after each write
fn op_versions(doc: &str, out: &mut Out) {
    let mut parts = doc.split('\x01');
    let main = parts.next().unwrap();
    let mut n = 0;
    while let (Some(path), Some(content)) = (parts.next(), parts.next()) {
        std::fs::write(path, content).unwrap();
        let mut o = Out { s: String::new() };
        both(Schema::parse_file(main), &mut o);
        out.put(&n.to_string(), &o.s);
        n += 1;
    }
}

/// the entry point for schemas embedded in other documents: "base\nlocal name of the parent\ntext"
fn op_node(doc: &str, out: &mut Out) {
    let (base, rest) = doc.split_once('\n').unwrap();
    let d = match roxmltree::Document::parse(rest) {
        Ok(d) => d,
        Err(e) => {
            out.put("err", "Xml");
            return out.put("msg", &e.to_string());
        }
    };
    let Some(n) = d.descendants().find(|n| n.tag_name().name() == "schema") else {
        out.put("msg", "no schema");
        return out.put("err", "NoSchema");
    };
    match Schema::parse_schema(&n.into(), std::path::Path::new(base)) {
        Ok(s) => generate(&s, out),
        Err(ParseError::Schema(e)) => {
            out.put("stage", "parse");
            put_err(out, &e)
        }
        Err(e) => {
            out.put("stage", "parse");
            out.put("err", "Node");
            out.put("detail", &format!("{:?}", e));
            out.put("range", &format!("{:?}", e.range()));
            out.put("msg", &e.to_string());
        }
    }
}

/// every element on its own, all elements with a shared set, and a name that does not exist
fn op_elements(doc: &str, out: &mut Out) {
    let schema = match Schema::parse_file(doc) {
        Ok(s) => s,
        Err(e) => return put_err(out, &e),
    };
    let show = |n: &Name| {
        let ns = match n.namespace {
            Namespace::None => String::new(),
            Namespace::Id(id) => schema.context().namespaces.get_by_id(id).namespace.clone(),
        };
        format!("[{},{}]", q(&n.name), q(&ns))
    };
    let mut names: Vec<&Name> = schema.elements().map(|(n, _)| n).collect();
    names.sort_by_key(|n| show(n));
    let mut res = Vec::new();
    for n in &names {
        let mut already = HashSet::new();
        res.push(match schema.generate_element_and_dependencies(n, &mut already) {
            Ok(t) => {
                let mut al: Vec<String> = already.iter().map(|n| show(n)).collect();
                al.sort();
                // a second time with the same set: nothing left to generate
                let again = match schema.generate_element_and_dependencies(n, &mut already) {
                    Ok(t) => t.to_string().len().to_string(),
                    Err(e) => q(&e.to_string()),
                };
                let hash = fnv(&t);
                match describe(t) {
                    Ok(d) => format!(
                        "{{\"name\":{},\"hash\":{},\"already\":{},\"again\":{},\"items\":{}}}",
                        show(n),
                        q(&hash),
                        list(&al),
                        again,
                        d
                    ),
                    Err(e) => format!("{{\"name\":{},\"notrust\":{}}}", show(n), q(&e)),
                }
            }
            Err(e) => format!("{{\"name\":{},\"err\":{}}}", show(n), q(&format!("{:?}", e))),
        });
    }
    out.s.push_str(",\"each\":");
    out.s.push_str(&list(&res));
    // all names, one shared set, in two orders
    for (key, rev) in [("shared", false), ("shared_rev", true)] {
        let mut order = names.clone();
        if rev {
            order.reverse();
        }
        let mut already = HashSet::new();
        let mut all = proc_macro2::TokenStream::new();
        let mut bad = None;
        for n in order {
            match schema.generate_element_and_dependencies(n, &mut already) {
                Ok(t) => all.extend(t),
                Err(e) => bad = Some(format!("{:?}", e)),
            }
        }
        match bad {
            Some(e) => out.put(&format!("{}_err", key), &e),
            None => match describe({
                out.put(&format!("{}_hash", key), &fnv(&all));
                all
            }) {
                Ok(d) => {
                    out.s.push_str(&format!(",\"{}\":", key));
                    out.s.push_str(&d);
                }
                Err(e) => out.put("notrust", &e),
            },
        }
    }
    generate(&schema, out);
    for (key, ns) in [("unknown_none", Namespace::None), ("unknown_ns", Namespace::Id(1))] {
        let unknown = Name::new("NoSuchElement-xyz", ns);
        let mut already = HashSet::new();
        match schema.generate_element_and_dependencies(&unknown, &mut already) {
            Ok(t) => out.put(key, &format!("ok {}", t)),
            Err(SchemaError::NotFound { name }) => out.put(key, &format!("NotFound {}", name)),
            Err(e) => out.put(key, &format!("{:?}", e)),
        }
    }
}

// ---------------------------------------------------------------- decode::Node

/// Runs a script of cursor operations.  "script\n\0\ndocument"; every line of the script is
/// `handle op name ns`; ns "-" is None.  Handles: -1 the document, n the n-th node obtained.
fn op_cursor(doc: &str, out: &mut Out) {
    use xsd::decode::{decode, FromXmlError, Node};
    let (script, xml) = doc.split_once("\n\0\n").unwrap();
    let d = match decode(xml) {
        Ok(d) => d,
        Err(e) => {
            out.put("xmlerr", &e.to_string());
            return;
        }
    };
    // nodes borrow from their parent: keep all of them alive (leaked boxes)
    let d: &'static xsd::decode::Document<'static> =
        unsafe { std::mem::transmute(Box::leak(Box::new(d))) };
    let mut nodes: Vec<&'static Node<'static>> = Vec::new();
    let mut log = Vec::new();
    for line in script.lines() {
        let p: Vec<&str> = line.split('\u{1}').collect();
        let h: i64 = p[0].parse().unwrap();
        let name = p[2];
        let ns = if p[3] == "-" { None } else { Some(p[3]) };
        fn keep(n: Node<'static>) -> &'static Node<'static> {
            Box::leak(Box::new(n))
        }
        let showe = |e: FromXmlError| format!("E {:?}", e);
        let r: Result<Option<Node<'static>>, String>;
        if h < 0 {
            r = match p[1] {
                "child" => Ok(d.child(name, ns)),
                "try_child" => d.try_child(name, ns).map(Some).map_err(showe),
                _ => unreachable!(),
            };
        } else {
            let n: &'static Node<'static> = nodes[h as usize];
            r = match p[1] {
                "peek" => Err(format!("{}", n.peek_child(name, ns))),
                "next" => Ok(n.next_child(name, ns)),
                "try_next" => n.try_next_child(name, ns).map(Some).map_err(showe),
                "child" => Ok(n.child(name, ns)),
                "try_child" => n.try_child(name, ns).map(Some).map_err(showe),
                "attr" => Err(match n.attribute(name) {
                    Some(v) => format!("= {}", v),
                    None => "none".into(),
                }),
                "try_attr" => Err(match n.try_attribute(name) {
                    Ok(v) => format!("= {}", v),
                    Err(e) => showe(e),
                }),
                "text" => Err(match n.text() {
                    Ok(v) => format!("= {}", v.as_ref() as &str),
                    Err(e) => showe(e),
                }),
                "range" => Err(format!("{:?}", n.range())),
                _ => unreachable!(),
            };
        }
        log.push(q(&match r {
            Ok(Some(n)) => {
                let range = n.range();
                nodes.push(keep(n));
                format!("N {} {}", range.start, range.end)
            }
            Ok(None) => "none".to_string(),
            Err(s) => s,
        }));
    }
    out.s.push_str(",\"log\":");
    out.s.push_str(&list(&log));
}

// ---------------------------------------------------------------- Context

/// Interprets a tree of writer contexts.  Lines, separated by \u{2}, fields by \u{1}:
/// new name | wrap | attr k v | ns p u | default u | start | end | text t | pop | fail n
fn op_writer(doc: &str, out: &mut Out) {
    use xsd::xml::writer::{EmitterConfig, EventWriter, XmlEvent};
    struct W {
        buf: Vec<u8>,
        fail_at: usize,
    }
    impl std::io::Write for W {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            if self.buf.len() + b.len() > self.fail_at {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "injected"));
            }
            self.buf.extend_from_slice(b);
            Ok(b.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    let lines: Vec<Vec<&str>> = doc.split('\u{2}').map(|l| l.split('\u{1}').collect()).collect();
    let mut fail_at = usize::MAX;
    let mut ix = 0;
    if lines[0][0] == "fail" {
        fail_at = lines[0][1].parse().unwrap();
        ix = 1;
    }
    let mut sink = W { buf: Vec::new(), fail_at };
    let res = {
        let mut w = EmitterConfig::new()
            .perform_indent(false)
            .write_document_declaration(false)
            .create_writer(&mut sink);
        fn run<'x, Wr: std::io::Write>(
            lines: &'x [Vec<&'x str>],
            ix: &mut usize,
            mut ctx: Option<xsd::Context<'x, '_>>,
            w: &mut EventWriter<Wr>,
        ) -> Result<(), String> {
            while *ix < lines.len() {
                let l = &lines[*ix];
                *ix += 1;
                match l[0] {
                    "new" => run(lines, ix, Some(xsd::Context::new(l[1])), w)?,
                    "wrap" => {
                        let c = ctx.as_mut().unwrap();
                        let inner = xsd::Context::wrap(c);
                        run(lines, ix, Some(inner), w)?
                    }
                    "attr" => ctx.as_mut().unwrap().set_attr(l[1], l[2]),
                    "ns" => ctx.as_mut().unwrap().set_ns(l[1], l[2]),
                    "default" => ctx.as_mut().unwrap().set_default_ns(l[1]),
                    "start" => ctx.as_mut().unwrap().write_start_element(w).map_err(|e| format!("{}", e))?,
                    "end" => ctx.as_mut().unwrap().write_end_element(w).map_err(|e| format!("{}", e))?,
                    "text" => w.write(XmlEvent::characters(l[1])).map_err(|e| format!("{}", e))?,
                    "pop" => return Ok(()),
                    _ => unreachable!(),
                }
            }
            Ok(())
        }
        run(&lines, &mut ix, None, &mut w)
    };
    out.put("xml", &String::from_utf8_lossy(&sink.buf));
    out.put("res", &match res {
        Ok(()) => "ok".to_string(),
        Err(e) => format!("E {}", e),
    });
}

fn main() {
    rt::main(&[
        ("parse", op_parse),
        ("file", op_file),
        ("versions", op_versions),
        ("node", op_node),
        ("elements", op_elements),
        ("cursor", op_cursor),
        ("writer", op_writer),
    ])
}
