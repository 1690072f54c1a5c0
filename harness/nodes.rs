// Drives the navigation of schema documents (xsd::internal::xsd::node) directly.  One JSON line per case.
#![allow(warnings)]
#[path = "/verif/harness/rt.rs"]
mod rt;
use rt::{js, Out};
use xsd::internal::xsd::node::{Node, NodeError};

fn q(s: &str) -> String {
    let mut o = String::new();
    js(&mut o, s);
    o
}
fn list(items: &[String]) -> String {
    format!("[{}]", items.join(","))
}
fn opt(s: &Option<String>) -> String {
    match s {
        Some(s) => format!("={}", s),
        None => "-".to_string(),
    }
}
fn err(e: NodeError) -> String {
    let msg = e.to_string();
    let r = e.range().map(|r| format!("{}..{}", r.start, r.end)).unwrap_or_default();
    let what = match e {
        NodeError::MissingElement { name, namespace, .. } => format!("MissingElement {} {}", name, opt(&namespace)),
        NodeError::ElementNotFound { element_name, element_namespace, attribute_name, attribute_value, .. } => format!(
            "ElementNotFound {} {} {} {}",
            opt(&element_name), opt(&element_namespace), opt(&attribute_name), opt(&attribute_value)
        ),
        NodeError::MissingAttribute { name, element, .. } => format!("MissingAttribute {} {}", name, element),
        NodeError::TextExpected { name, .. } => format!("TextExpected {}", name),
        NodeError::UnsupportedAttribute { name, element, .. } => format!("UnsupportedAttribute {} {}", name, element),
        NodeError::UnsupportedElement { name, parent, .. } => format!("UnsupportedElement {} {}", name, parent),
        NodeError::MissingNamespace { uri, .. } => format!("MissingNamespace {}", uri),
        #[allow(unreachable_patterns)]
        _ => "other".to_string(),
    };
    format!("E {} {}\u{1}{}", r, what, msg)
}
fn at(n: &Node) -> String {
    format!("N {}..{}", n.range().start, n.range().end)
}
fn val(s: &str) -> Option<&str> {
    s.strip_prefix('=')
}

/// lines, separated by \u{2}, fields by \u{1}: element, operation, arguments ("-" none, "=x" x); then \u{3} and the document
fn op_nav(doc: &str, out: &mut Out) {
    let (script, xml) = doc.split_once('\u{3}').unwrap();
    let d = match roxmltree::Document::parse(xml) {
        Ok(d) => d,
        Err(e) => return out.put("xmlerr", &e.to_string()),
    };
    let els: Vec<roxmltree::Node> = d.descendants().filter(|n| n.is_element()).collect();
    let mut log = Vec::new();
    for line in script.split('\u{2}') {
        let p: Vec<&str> = line.split('\u{1}').collect();
        let node = Node::from(els[p[0].parse::<usize>().unwrap()]);
        let n = &node;
        let mut res = Vec::new();
        match p[1] {
            "self" => {
                res.push(at(n));
                res.push(n.name().to_string());
                res.push(opt(&n.namespace().map(|s| s.to_string())));
                res.push(opt(&n.default_namespace().map(|s| s.to_string())));
            }
            "text" => {
                res.push(opt(&n.text().map(|s| s.to_string())));
                res.push(n.try_text().map(|s| format!("={}", s)).unwrap_or_else(err));
            }
            "child" => {
                res.push(n.child(p[2], val(p[3])).map(|n| at(&n)).unwrap_or("-".into()));
                res.push(n.try_child(p[2], val(p[3])).map(|n| at(&n)).unwrap_or_else(err));
            }
            "prefix" => res.push(n.try_namespace_prefix(p[2]).map(|s| format!("={}", s)).unwrap_or_else(err)),
            "uri" => res.push(n.try_namespace_uri(p[2]).map(|s| format!("={}", s)).unwrap_or_else(err)),
            "attrs" => {
                // visits them one by one; after each, what has not been visited yet
                for name in &p[2..] {
                    if let Some(name) = name.strip_prefix('!') {
                        res.push(n.try_attribute(name).map(|a| format!("={} {}..{}", a.value(), a.range().start, a.range().end)).unwrap_or_else(err));
                    } else {
                        res.push(n.attribute(name).map(|a| format!("={} {}..{}", a.value(), a.range().start, a.range().end)).unwrap_or("-".into()));
                    }
                    res.push(n.prevent_unvisited_attributes().map(|_| "ok".to_string()).unwrap_or_else(err));
                }
            }
            "filter" => {
                let make = || {
                    let mut b = n.children();
                    // in any order
                    for step in p[2].chars() {
                        b = match step {
                            'e' => b.element(p[3]),
                            'n' => b.namespace(p[4]),
                            'a' => b.attribute(p[5], p[6]),
                            _ => unreachable!(),
                        };
                    }
                    b
                };
                res.push(make().iter().map(|n| at(&n)).collect::<Vec<_>>().join(" "));
                res.push(make().try_find().map(|n| at(&n)).unwrap_or_else(err));
                let mut c = make().collect();
                for pair in p[7..].chunks(2) {
                    if let Some(name) = pair[0].strip_prefix('!') {
                        res.push(c.try_remove(name, val(pair[1])).map(|n| at(&n)).unwrap_or_else(err));
                    } else {
                        res.push(c.remove(pair[0], val(pair[1])).map(|n| at(&n)).unwrap_or("-".into()));
                    }
                }
                res.push(c.prevent_unvisited_children().map(|_| "ok".to_string()).unwrap_or_else(err));
            }
            _ => unreachable!(),
        }
        log.push(list(&res.iter().map(|s| q(s)).collect::<Vec<_>>()));
    }
    out.s.push_str(",\"log\":");
    out.s.push_str(&list(&log));
}

fn main() {
    rt::main(&[("nav", op_nav)])
}
