use proc_macro2::{Delimiter, TokenStream, TokenTree};
use progenitor_impl::*;
fn flat(ts: TokenStream, out: &mut Vec<String>) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        if let TokenTree::Punct(p) = &v[i] {
            if p.as_char() == '#' {
                let mut j = i + 1;
                if let Some(TokenTree::Punct(q)) = v.get(j) { if q.as_char() == '!' { j += 1; } }
                if let Some(TokenTree::Group(g)) = v.get(j) {
                    let s = g.to_string().replace(' ', "");
                    if s.starts_with("[doc=") || s.contains("elided_named_lifetimes") || s.contains("rustfmt_skip") { i = j + 1; continue; }
                }
            }
        }
        match &v[i] {
            TokenTree::Ident(id) if id == "mod" => {
                if let (Some(TokenTree::Ident(n)), Some(TokenTree::Group(_))) = (v.get(i + 1), v.get(i + 2)) {
                    if n == "types" { i += 3; continue; }
                }
                out.push("mod".into());
            }
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{", "}"), Delimiter::Bracket => ("[", "]"), _ => ("", "") };
                out.push(a.into());
                flat(g.stream(), out);
                if out.last().is_some_and(|s| s == ",") { out.pop(); }
                out.push(b.into());
            }
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if c == '>' && out.last().is_some_and(|s| s == ",") { out.pop(); }
                out.push(c.to_string())
            }
            t => out.push(t.to_string()),
        }
        i += 1;
    }
}
fn fmt(ts: TokenStream) -> TokenStream {
    use std::io::Write;
    let mut c = std::process::Command::new("rustup").args(["run", "nightly", "rustfmt"]).args(["--unstable-features", "--config", "format_strings=true,normalize_doc_attributes=true,wrap_comments=true", "--edition", "2021"]).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).spawn().unwrap();
    let mut i = c.stdin.take().unwrap();
    let s = ts.to_string();
    std::thread::spawn(move || i.write_all(s.as_bytes()));
    let o = c.wait_with_output().unwrap();
    assert!(o.status.success());
    String::from_utf8(o.stdout).unwrap().parse().unwrap()
}
fn cmp(label: &str, got: TokenStream, file: &str) {
    let got = fmt(got);
    let Ok(text) = std::fs::read_to_string(file) else { println!("{label}: no golden"); return };
    let want: TokenStream = text.parse().unwrap();
    let (mut a, mut b) = (vec![], vec![]);
    flat(got, &mut a);
    flat(want, &mut b);
    // sort use lists crudely: drop `use ... ;` statements and reorderable items
    let strip = |v: Vec<String>| { let mut o = vec![]; let mut skip = false; for t in v { if t == "use" { skip = true; } if !skip { o.push(t.clone()); } if t == ";" && skip { skip = false; } } o };
    let (a, b) = (strip(a), strip(b));
    if a == b { println!("{label}: same ({} tokens)", a.len()); return; }
    let i = (0..a.len().min(b.len())).find(|&i| a[i] != b[i]).unwrap_or(a.len().min(b.len()));
    println!("{label}: DIFF at {i}/{}/{}\n got: {}\n want: {}", a.len(), b.len(), a[i.saturating_sub(25)..(i + 25).min(a.len())].join(" "), b[i.saturating_sub(25)..(i + 25).min(b.len())].join(" "));
}
fn main() {
    for f in ["param-collision", "param-overrides", "cli-gen", "keeper", "buildomat", "propolis-server", "nexus"] {
        let stem = f.replace('-', "_");
        let spec: openapiv3::OpenAPI = serde_json::from_str(&std::fs::read_to_string(format!("/repo/sample_openapi/{f}.json")).unwrap()).unwrap();
        let dir = "/repo/progenitor-impl/tests/output/src";
        let mut g = Generator::default();
        cmp(&format!("{f} positional"), g.generate_tokens(&spec).unwrap(), &format!("{dir}/{stem}_positional.rs"));
        let mut g = Generator::new(GenerationSettings::default().with_interface(InterfaceStyle::Builder).with_tag(TagStyle::Merged).with_derive("schemars::JsonSchema")
            .with_patch("Name", TypePatch::default().with_derive("Hash"))
            .with_conversion(schemars::schema::SchemaObject { instance_type: Some(schemars::schema::InstanceType::Integer.into()), format: Some("int32".to_string()), ..Default::default() }, "usize", [TypeImpl::Display].into_iter()));
        cmp(&format!("{f} builder"), g.generate_tokens(&spec).unwrap(), &format!("{dir}/{stem}_builder.rs"));
        let mut g = Generator::new(GenerationSettings::default().with_interface(InterfaceStyle::Builder).with_tag(TagStyle::Separate));
        cmp(&format!("{f} tagged"), g.generate_tokens(&spec).unwrap(), &format!("{dir}/{stem}_builder_tagged.rs"));
        cmp(&format!("{f} cli"), g.cli(&spec, &format!("crate::{stem}_builder")).unwrap(), &format!("{dir}/{stem}_cli.rs"));
        cmp(&format!("{f} httpmock"), g.httpmock(&spec, &format!("crate::{stem}_builder")).unwrap(), &format!("{dir}/{stem}_httpmock.rs"));
    }
}
