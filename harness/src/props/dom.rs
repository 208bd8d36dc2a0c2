//! A conforming HTML fragment parser (html5ever), as a reference.
use crate::lang::Node;
use html5ever::tendril::TendrilSink;
use markup5ever_rcdom::{Handle, NodeData, RcDom};

/// Parses a fragment in the context of a `<body>` element. Comments are
/// dropped, and adjacent text is merged.
pub fn parse(html: &str) -> Vec<Node> { parse_in(html, "body") }

pub fn parse_in(html: &str, ctx: &str) -> Vec<Node> {
    use html5ever::{local_name, namespace_url, ns, LocalName, QualName};
    let _ = local_name!("a");
    let dom: RcDom = html5ever::parse_fragment(RcDom::default(), Default::default(), QualName::new(None, ns!(html), LocalName::from(ctx)), vec![])
        .one(html.to_string());
    let root = dom.document.children.borrow()[0].clone();
    kids(&root)
}

pub fn kids(h: &Handle) -> Vec<Node> {
    let mut out: Vec<Node> = Vec::new();
    for c in h.children.borrow().iter() {
        match &c.data {
            NodeData::Text {contents} => {
                let t = contents.borrow().to_string();
                if let Some(Node::Text(u)) = out.last_mut() { *u += &t; } else if !t.is_empty() { out.push(Node::Text(t)); }
            },
            NodeData::Element {name, attrs, ..} => {
                let a = attrs.borrow().iter().map(|a| (a.name.local.to_string(), Some(a.value.to_string()))).collect();
                out.push(Node::El(name.local.to_string(), a, kids(c)));
            },
            _ => {},
        }
    }
    out
}
