//! pyo3's attributes, reduced to what the analysis needs: default values become functions, special methods are listed.
use proc_macro::{Delimiter, TokenStream, TokenTree};

fn text(ts: &[TokenTree]) -> String {
    ts.iter().cloned().collect::<TokenStream>().to_string()
}

fn split(ts: TokenStream) -> Vec<Vec<TokenTree>> {
    let (mut out, mut cur, mut depth) = (Vec::new(), Vec::new(), 0i32);
    for t in ts {
        if let TokenTree::Punct(p) = &t {
            match p.as_char() {
                '<' => depth += 1,
                '>' => depth -= 1,
                ',' if depth == 0 => {
                    out.push(std::mem::take(&mut cur));
                    continue;
                }
                _ => {}
            }
        }
        cur.push(t);
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

/// #[pyo3(...)] attributes are taken out of an item and handed over.
fn take_pyo3(item: TokenStream) -> (Vec<TokenTree>, Vec<TokenStream>) {
    let ts: Vec<TokenTree> = item.into_iter().collect();
    let (mut rest, mut found, mut i) = (Vec::new(), Vec::new(), 0);
    while i < ts.len() {
        if let (TokenTree::Punct(p), Some(TokenTree::Group(g))) = (&ts[i], ts.get(i + 1)) {
            let inner: Vec<TokenTree> = g.stream().into_iter().collect();
            if p.as_char() == '#' && inner.first().is_some_and(|t| t.to_string() == "pyo3") {
                if let Some(TokenTree::Group(h)) = inner.get(1) {
                    found.push(h.stream());
                }
                i += 2;
                continue;
            }
        }
        rest.push(ts[i].clone());
        i += 1;
    }
    (rest, found)
}

#[proc_macro_attribute]
pub fn pyfunction(attr: TokenStream, item: TokenStream) -> TokenStream {
    let (rest, found) = take_pyo3(item);
    let mut sigs: Vec<TokenStream> = found;
    if !attr.is_empty() {
        sigs.push(attr);
    }
    let k = rest.iter().position(|t| t.to_string() == "fn").expect("a function");
    let name = rest[k + 1].to_string();
    let TokenTree::Group(params) = rest[k + 2..].iter().find(|t| matches!(t, TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis)).expect("parameters") else { unreachable!() };
    let mut types = Vec::new();
    for p in split(params.stream()) {
        let c = p.iter().position(|t| t.to_string() == ":").expect("a typed parameter");
        let ty = text(&p[c + 1..]);
        if ty.starts_with("Python") {
            continue;
        }
        types.push((p[c - 1].to_string(), ty));
    }
    let mut out = text(&rest);
    let mut named = Vec::new();
    for s in sigs {
        let v: Vec<TokenTree> = s.into_iter().collect();
        let (Some(TokenTree::Ident(w)), Some(TokenTree::Group(g))) = (v.first(), v.get(2)) else { panic!("an attribute the model does not know") };
        assert!(w.to_string() == "signature" && v.len() == 3, "an attribute the model does not know");
        for p in split(g.stream()) {
            let pname = p[0].to_string();
            if p.len() > 2 {
                let ty = &types.iter().find(|(n, _)| *n == pname).expect("a parameter of the signature").1;
                let d = text(&p[2..]);
                let d = if ty.starts_with("Option") && d != "None" && !d.starts_with("Some") { format!("Some({d})") } else { d };
                out.push_str(&format!("\n#[allow(non_snake_case)] pub fn {name}__default__{pname}() -> {ty} {{ {d} }}"));
            }
            named.push(pname);
        }
        assert!(named == types.iter().map(|(n, _)| n.clone()).collect::<Vec<_>>(), "the signature names other parameters");
    }
    out.parse().unwrap()
}

#[proc_macro_attribute]
pub fn pymodule(_attr: TokenStream, item: TokenStream) -> TokenStream {
    item
}

#[proc_macro_attribute]
pub fn pyclass(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let ts: Vec<TokenTree> = item.clone().into_iter().collect();
    let k = ts.iter().position(|t| t.to_string() == "struct").expect("a struct");
    let name = ts[k + 1].to_string();
    format!("{item}\nimpl ::pyo3::PyClass for {name} {{ const NAME: &'static str = \"{name}\"; }}").parse().unwrap()
}

#[proc_macro_attribute]
pub fn pymethods(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let ts: Vec<TokenTree> = item.clone().into_iter().collect();
    let k = ts.iter().position(|t| t.to_string() == "impl").expect("an impl");
    let name = ts[k + 1].to_string();
    let Some(TokenTree::Group(body)) = ts.last() else { panic!("a body") };
    let b: Vec<TokenTree> = body.stream().into_iter().collect();
    let mut list = String::new();
    for i in 0..b.len() {
        if b[i].to_string() == "fn" {
            let m = b[i + 1].to_string();
            list.push_str(&format!("(\"{m}\", self.{m}()),"));
        }
    }
    format!("{item}\nimpl ::pyo3::PyObj for {name} {{ fn shown(&self) -> ::pyo3::Shown {{ vec![{list}] }} }}").parse().unwrap()
}
