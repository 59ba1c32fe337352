//! Stand-ins for the attribute macros of pyo3, cf. the crate pyo3.

use proc_macro::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};

type Tokens = Vec<TokenTree>;

fn is_punct(t: Option<&TokenTree>, c: char) -> bool {
    matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c)
}

fn ident(t: Option<&TokenTree>) -> Option<String> {
    match t {
        Some(TokenTree::Ident(i)) => Some(i.to_string()),
        _ => None,
    }
}

const OURS: [&str; 8] =
    ["pyo3", "new", "getter", "setter", "staticmethod", "classmethod", "args", "classattr"];

/// Remove our attributes everywhere.
fn strip(ts: TokenStream) -> TokenStream {
    let ts: Tokens = ts.into_iter().collect();
    let mut out = Tokens::new();
    let mut k = 0;
    while k < ts.len() {
        if is_punct(ts.get(k), '#') {
            if let Some(TokenTree::Group(g)) = ts.get(k + 1) {
                if g.delimiter() == Delimiter::Bracket {
                    let first = ident(g.stream().into_iter().next().as_ref());
                    if first.is_some_and(|f| OURS.contains(&f.as_str())) {
                        k += 2;
                        continue;
                    }
                }
            }
        }
        out.push(match &ts[k] {
            TokenTree::Group(g) => {
                let mut new = Group::new(g.delimiter(), strip(g.stream()));
                new.set_span(g.span());
                TokenTree::Group(new)
            },
            t => t.clone(),
        });
        k += 1;
    }
    out.into_iter().collect()
}

/// Everything (at this level) is public.
fn publish(ts: Tokens, what: &[&str]) -> Tokens {
    let mut out = Tokens::new();
    for (k, t) in ts.iter().enumerate() {
        if let TokenTree::Ident(i) = t {
            let i = i.to_string();
            if i == "pub" {
                if matches!(ts.get(k + 1), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis)
                    && ident(ts.get(k + 2)).is_some_and(|n| what.contains(&n.as_str()))
                {
                    // pub(crate)
                    continue;
                }
            } else if what.contains(&i.as_str())
                && k.checked_sub(1).and_then(|j| ident(ts.get(j))).as_deref() != Some("pub")
                && !is_punct(k.checked_sub(1).and_then(|j| ts.get(j)), ':')
            {
                // the visibility in brackets belongs to a `pub` that was left out
                if let Some(TokenTree::Group(g)) = out.last() {
                    let inner = g.stream().to_string();
                    if g.delimiter() == Delimiter::Parenthesis
                        && (inner == "crate" || inner == "super" || inner.starts_with("in "))
                    {
                        out.pop();
                    }
                }
                out.push(TokenTree::Ident(Ident::new("pub", Span::call_site())));
            }
        }
        out.push(t.clone());
    }
    out
}

/// The names of the parameters, without `self`; None if there is a `self`.
fn params(g: TokenStream) -> Option<Vec<String>> {
    let mut names = Vec::new();
    let mut depth = 0i32;
    let mut fresh = true;
    let ts: Tokens = g.into_iter().collect();
    for (k, t) in ts.iter().enumerate() {
        match t {
            TokenTree::Punct(p) if p.as_char() == '<' => depth += 1,
            TokenTree::Punct(p) if p.as_char() == '>' => depth -= 1,
            TokenTree::Punct(p) if p.as_char() == ',' && depth == 0 => fresh = true,
            TokenTree::Ident(i) if fresh => {
                let n = i.to_string();
                if n == "mut" {
                    continue;
                }
                if n == "self" {
                    return None;
                }
                if is_punct(ts.get(k + 1), ':') {
                    names.push(n);
                    fresh = false;
                }
            },
            _ => {},
        }
    }
    Some(names)
}

/// The content of `signature = (..)` in the attributes.
fn signature(ts: &[TokenTree]) -> Option<String> {
    for (k, t) in ts.iter().enumerate() {
        if let TokenTree::Group(g) = t {
            if k > 0 && is_punct(ts.get(k - 1), '#') {
                let inner: Tokens = g.stream().into_iter().collect();
                if ident(inner.first()).as_deref() == Some("pyo3") {
                    if let Some(TokenTree::Group(h)) = inner.get(1) {
                        let args: Tokens = h.stream().into_iter().collect();
                        for (j, a) in args.iter().enumerate() {
                            if ident(Some(a)).as_deref() == Some("signature") {
                                if let Some(TokenTree::Group(s)) = args.get(j + 2) {
                                    return Some(s.stream().to_string());
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    None
}

/// A function that takes python arguments.
fn wrapper(attrs: &[TokenTree], item: &[TokenTree], prefix: &str) -> Option<String> {
    let k = item.iter().position(|t| ident(Some(t)).as_deref() == Some("fn"))?;
    let name = ident(item.get(k + 1))?;
    let (j, args) = item.iter().enumerate().skip(k).find_map(|(j, t)| match t {
        TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => Some((j, g.stream())),
        _ => None,
    })?;
    let names = params(args)?;
    let sig = signature(attrs).unwrap_or_else(|| names.join(", "));
    let _ = j;
    let gets: Vec<String> =
        (0..names.len()).map(|k| format!("bound.get({k})?")).collect();
    Some(format!(
        "#[allow(non_snake_case)] pub fn {name}__py(args: &::pyo3::Args) \
         -> ::pyo3::PyResult<::pyo3::PyAny> {{ \
         let bound = args.bind({sig:?}, &{names:?})?; \
         ::pyo3::IntoResult::into_result({prefix}{name}({})) }}", gets.join(", ")
    ))
}

/// The name of a method with `self`, and of its parameters.
fn method(item: &[TokenTree]) -> Option<(String, Vec<String>)> {
    let k = item.iter().position(|t| ident(Some(t)).as_deref() == Some("fn"))?;
    let name = ident(item.get(k + 1))?;
    let args = item.iter().skip(k).find_map(|t| match t {
        TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => Some(g.stream()),
        _ => None,
    })?;
    if params(args.clone()).is_some() {
        return None;
    }
    let ts: Tokens = args.into_iter().collect();
    let rest: TokenStream = ts
        .into_iter()
        .skip_while(|t| !is_punct(Some(t), ','))
        .skip(1)
        .collect();
    Some((name, params(rest)?))
}

#[proc_macro_attribute]
pub fn pyclass(_: TokenStream, item: TokenStream) -> TokenStream {
    let text = item.to_string();
    let clone = text.contains("derive") && text.contains("Clone");
    // the fields that can be read
    let mut fields = Vec::new();
    for t in item.clone() {
        if let TokenTree::Group(g) = t {
            if g.delimiter() == Delimiter::Brace {
                let ts: Tokens = g.stream().into_iter().collect();
                for (k, t) in ts.iter().enumerate() {
                    if let TokenTree::Group(g) = t {
                        let text = g.stream().to_string().replace(' ', "");
                        if text.starts_with("pyo3(") && text.contains("get") {
                            let next = (k..ts.len() - 1).find(|j| {
                                ident(ts.get(*j)).is_some() && is_punct(ts.get(j + 1), ':')
                            });
                            fields.push(ident(ts.get(next.unwrap())).unwrap());
                        }
                    }
                }
            }
        }
    }
    let ts: Tokens = strip(item).into_iter().collect();
    let k = ts
        .iter()
        .position(|t| matches!(ident(Some(t)).as_deref(), Some("struct" | "enum")))
        .expect("stub: class");
    let name = ident(ts.get(k + 1)).unwrap();
    let mut out: TokenStream = publish(ts, &["struct", "enum"]).into_iter().collect();
    let extra = format!(
        "::pyo3::class!({name} {}); {}",
        fields.join(" "),
        if clone { format!("::pyo3::clone_class!({name});") } else { String::new() }
    );
    out.extend(extra.parse::<TokenStream>().unwrap());
    out
}

#[proc_macro_attribute]
pub fn pymethods(_: TokenStream, item: TokenStream) -> TokenStream {
    let ts: Tokens = item.into_iter().collect();
    let mut out = Tokens::new();
    let mut more = String::new();
    for t in ts {
        match t {
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => {
                let inner: Tokens = g.stream().into_iter().collect();
                // the items; each ends with its body
                let mut extra = String::new();
                let mut arms = String::new();
                let mut new = String::new();
                let mut start = 0;
                for (k, t) in inner.iter().enumerate() {
                    if matches!(t, TokenTree::Group(b) if b.delimiter() == Delimiter::Brace) {
                        let item = &inner[start..=k];
                        if let Some(w) = wrapper(item, item, "Self::") {
                            extra.push_str(&w);
                            if item.iter().any(|t| {
                                matches!(t, TokenTree::Group(g) if g.stream().to_string() == "new")
                            }) {
                                let k = item
                                    .iter()
                                    .position(|t| ident(Some(t)).as_deref() == Some("fn"))
                                    .unwrap();
                                new = format!("Self::{}__py(args)", ident(item.get(k + 1)).unwrap());
                            }
                        }
                        if let Some((name, names)) = method(item) {
                            let sig = signature(item).unwrap_or_else(|| names.join(", "));
                            let gets: Vec<String> =
                                (0..names.len()).map(|k| format!("bound.get({k})?")).collect();
                            arms.push_str(&format!(
                                "{name:?} => {{ let bound = args.bind({sig:?}, &{names:?})?; \
                                 ::pyo3::IntoResult::into_result(self.{name}({})) }}",
                                gets.join(", ")
                            ));
                        }
                        start = k + 1;
                    }
                }
                let stripped: Tokens = strip(g.stream()).into_iter().collect();
                let mut body: TokenStream = publish(stripped, &["fn"]).into_iter().collect();
                body.extend(extra.parse::<TokenStream>().unwrap());
                let name = out.iter().rev().find_map(|t| ident(Some(t))).unwrap();
                out.push(TokenTree::Group(Group::new(Delimiter::Brace, body)));
                let new = if new.is_empty() {
                    "Err(::pyo3::PyErr(\"TypeError\", String::new()))".to_string()
                } else {
                    new
                };
                more = format!(
                    "impl ::pyo3::PyMethods for {name} {{ \
                     fn construct(args: &::pyo3::Args) -> ::pyo3::PyResult<::pyo3::PyAny> {{ {new} }} \
                     fn method(&mut self, name: &str, args: &::pyo3::Args) \
                     -> ::pyo3::PyResult<::pyo3::PyAny> {{ match name {{ {arms} \
                     _ => Err(::pyo3::PyErr(\"AttributeError\", name.into())) }} }} }}"
                );
            },
            t => out.push(t),
        }
    }
    let mut out: TokenStream = out.into_iter().collect();
    out.extend(more.parse::<TokenStream>().unwrap());
    out
}

#[proc_macro_attribute]
pub fn pyfunction(_: TokenStream, item: TokenStream) -> TokenStream {
    let ts: Tokens = item.clone().into_iter().collect();
    let extra = wrapper(&ts, &ts, "").unwrap_or_default();
    let stripped: Tokens = strip(item).into_iter().collect();
    let mut out: TokenStream = publish(stripped, &["fn"]).into_iter().collect();
    out.extend(extra.parse::<TokenStream>().unwrap());
    out
}

#[proc_macro_attribute]
pub fn pymodule(_: TokenStream, item: TokenStream) -> TokenStream {
    let stripped: Tokens = strip(item).into_iter().collect();
    let out: TokenStream = publish(stripped, &["fn"]).into_iter().collect();
    out
}

#[proc_macro]
pub fn wrap_pyfunction(args: TokenStream) -> TokenStream {
    let ts: Tokens = args.into_iter().collect();
    let k = ts.iter().position(|t| is_punct(Some(t), ',')).unwrap_or(ts.len());
    let path: TokenStream = ts[..k].iter().cloned().collect();
    let name = ident(ts.get(k - 1)).unwrap();
    format!("::pyo3::PyResult::Ok(::pyo3::Function({name:?}, {path}__py))").parse().unwrap()
}
