// Dumps the syntax tree of Rust source files as JSON. Nothing is interpreted here: the tree is syn's,
// reduced to the node kinds the condition generator and the Verus emitter understand; anything else
// comes out as {"k":"unsupported","t":<source text>}.
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::ToTokens;
use serde_json::{json, Value as J};
use syn::parse::{Parse, ParseStream, Parser};
use syn::punctuated::Punctuated;
use syn::*;

fn ln(s: Span) -> J { json!(s.start().line) }
fn txt<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string() }
fn unsup<T: ToTokens + spanned::Spanned>(t: &T) -> J { json!({"k":"unsupported","t":txt(t),"ln":ln(t.span())}) }

fn path(p: &Path) -> J {
    J::Array(p.segments.iter().map(|s| {
        let args: Vec<J> = match &s.arguments {
            PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|g| match g {
                GenericArgument::Type(t) => Some(ty(t)),
                GenericArgument::Const(e) => Some(json!({"k":"constexpr","e":expr(e)})),
                GenericArgument::Lifetime(_) => None,
                o => Some(json!({"k":"unsupported","t":txt(o)})),
            }).collect(),
            PathArguments::Parenthesized(p) => p.inputs.iter().map(ty).collect(),
            PathArguments::None => vec![],
        };
        json!({"n": s.ident.to_string(), "a": args})
    }).collect())
}
fn qpath(q: &Option<QSelf>, p: &Path) -> J {
    match q {
        None => J::Null,
        Some(q) => json!({"ty": ty(&q.ty), "pos": q.position, "n": p.segments.len()}),
    }
}
fn ty(t: &Type) -> J {
    match t {
        Type::Path(p) => json!({"k":"path","q":qpath(&p.qself,&p.path),"p":path(&p.path)}),
        Type::Reference(r) => json!({"k":"ref","m":r.mutability.is_some(),"t":ty(&r.elem)}),
        Type::Tuple(t) => json!({"k":"tuple","e":t.elems.iter().map(ty).collect::<Vec<_>>()}),
        Type::Array(a) => json!({"k":"array","t":ty(&a.elem),"len":expr(&a.len)}),
        Type::Slice(a) => json!({"k":"slice","t":ty(&a.elem)}),
        Type::Paren(p) => ty(&p.elem),
        Type::Group(p) => ty(&p.elem),
        Type::Infer(_) => json!({"k":"infer"}),
        Type::ImplTrait(i) => json!({"k":"impl","t":txt(i)}),
        Type::Never(_) => json!({"k":"never"}),
        o => unsup(o),
    }
}
fn pat(p: &Pat) -> J {
    match p {
        Pat::Ident(i) => json!({"k":"id","n":i.ident.to_string(),"m":i.mutability.is_some(),"r":i.by_ref.is_some(),
            "sub": i.subpat.as_ref().map(|(_,s)| pat(s))}),
        Pat::Wild(_) => json!({"k":"wild"}),
        Pat::Tuple(t) => json!({"k":"tuple","e":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::TupleStruct(t) => json!({"k":"ts","p":path(&t.path),"e":t.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Struct(s) => json!({"k":"st","p":path(&s.path),"f":s.fields.iter().map(|f| json!({"n":txt(&f.member),"p":pat(&f.pat)})).collect::<Vec<_>>(),"rest":s.rest.is_some()}),
        Pat::Path(p) => json!({"k":"path","p":path(&p.path)}),
        Pat::Lit(l) => json!({"k":"lit","e":lit(&l.lit)}),
        Pat::Reference(r) => json!({"k":"ref","p":pat(&r.pat)}),
        Pat::Or(o) => json!({"k":"or","c":o.cases.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Paren(p) => pat(&p.pat),
        Pat::Slice(s) => json!({"k":"slice","e":s.elems.iter().map(pat).collect::<Vec<_>>()}),
        Pat::Rest(_) => json!({"k":"rest"}),
        Pat::Type(t) => json!({"k":"typed","p":pat(&t.pat),"t":ty(&t.ty)}),
        Pat::Range(r) => json!({"k":"range","lo":r.start.as_ref().map(|e| expr(e)),"hi":r.end.as_ref().map(|e| expr(e)),"incl":matches!(r.limits, RangeLimits::Closed(_))}),
        o => unsup(o),
    }
}
fn lit(l: &Lit) -> J {
    match l {
        Lit::Int(i) => json!({"k":"int","v":i.base10_digits(),"s":i.suffix(),"t":i.token().to_string()}),
        Lit::Bool(b) => json!({"k":"bool","v":b.value}),
        Lit::Str(s) => json!({"k":"str","v":s.value()}),
        Lit::Char(c) => json!({"k":"char","v":c.value().to_string()}),
        Lit::Byte(b) => json!({"k":"int","v":b.value().to_string(),"s":"u8","t":txt(l)}),
        Lit::ByteStr(b) => json!({"k":"bytes","v":b.value()}),
        Lit::Float(f) => json!({"k":"float","v":f.to_string()}),
        o => json!({"k":"unsupported","t":txt(o)}),
    }
}
struct Args(Vec<Expr>);
impl Parse for Args {
    fn parse(i: ParseStream) -> Result<Self> { Ok(Args(Punctuated::<Expr, Token![,]>::parse_terminated(i)?.into_iter().collect())) }
}
struct Rep(Expr, Expr);
impl Parse for Rep {
    fn parse(i: ParseStream) -> Result<Self> { let a: Expr = i.parse()?; i.parse::<Token![;]>()?; Ok(Rep(a, i.parse()?)) }
}
fn mac(m: &Macro) -> J {
    let name = m.path.segments.last().unwrap().ident.to_string();
    let full = txt(&m.path).replace(' ', "");
    let l = ln(m.path.segments.last().unwrap().ident.span());
    if let Ok(Rep(a, b)) = parse2::<Rep>(m.tokens.clone()) {
        return json!({"k":"macro","n":name,"full":full,"rep":[expr(&a),expr(&b)],"ln":l});
    }
    if name == "matches" {
        let p = |i: ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
            let e: Expr = i.parse()?; i.parse::<Token![,]>()?; let p = Pat::parse_multi_with_leading_vert(i)?;
            let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse::<Expr>()?) } else { None };
            let _ = i.parse::<Option<Token![,]>>()?; Ok((e, p, g)) };
        if let Ok((e, p, g)) = p.parse2(m.tokens.clone()) {
            return json!({"k":"match","e":expr(&e),"ln":l,"arms":[{"p":pat(&p),"g":g.as_ref().map(expr),"b":{"k":"lit","e":{"k":"bool","v":true}}},{"p":{"k":"wild"},"g":null,"b":{"k":"lit","e":{"k":"bool","v":false}}}]});
        }
    }
    if let Ok(Args(a)) = parse2::<Args>(m.tokens.clone()) {
        return json!({"k":"macro","n":name,"full":full,"args":a.iter().map(expr).collect::<Vec<_>>(),"ln":l});
    }
    json!({"k":"macro","n":name,"full":full,"tok":m.tokens.to_string(),"ln":l})
}
fn block(b: &Block) -> J { J::Array(b.stmts.iter().map(stmt).collect()) }
fn stmt(s: &Stmt) -> J {
    match s {
        Stmt::Local(l) => json!({"k":"let","p":pat(&l.pat),"e":l.init.as_ref().map(|i| expr(&i.expr)),
            "else":l.init.as_ref().and_then(|i| i.diverge.as_ref().map(|(_,e)| expr(e))),"ln":ln(l.let_token.span)}),
        Stmt::Expr(e, semi) => json!({"k":"expr","e":expr(e),"semi":semi.is_some(),"ln":ln(spanned::Spanned::span(e))}),
        Stmt::Macro(m) => json!({"k":"expr","e":mac(&m.mac),"semi":m.semi_token.is_some(),"ln":ln(m.mac.path.segments[0].ident.span())}),
        Stmt::Item(i) => json!({"k":"item","i":item(i)}),
    }
}
fn lab(l: &Option<Label>) -> J { json!(l.as_ref().map(|l| l.name.ident.to_string())) }
fn expr(e: &Expr) -> J {
    let mut v = expr0(e);
    if let J::Object(m) = &mut v { m.entry("ln").or_insert(ln(spanned::Spanned::span(e))); }
    v
}
fn expr0(e: &Expr) -> J {
    match e {
        Expr::Lit(l) => json!({"k":"lit","e":lit(&l.lit)}),
        Expr::Path(p) => json!({"k":"path","q":qpath(&p.qself,&p.path),"p":path(&p.path)}),
        Expr::Binary(b) => json!({"k":"bin","op":txt(&b.op),"l":expr(&b.left),"r":expr(&b.right)}),
        Expr::Unary(u) => json!({"k":"un","op":txt(&u.op),"e":expr(&u.expr)}),
        Expr::Paren(p) => json!({"k":"paren","e":expr(&p.expr)}),
        Expr::Group(p) => expr(&p.expr),
        Expr::Call(c) => json!({"k":"call","f":expr(&c.func),"a":c.args.iter().map(expr).collect::<Vec<_>>()}),
        Expr::MethodCall(m) => json!({"k":"mcall","r":expr(&m.receiver),"m":m.method.to_string(),
            "t":m.turbofish.as_ref().map(|t| t.args.iter().map(|g| match g { GenericArgument::Type(t)=>ty(t), GenericArgument::Const(e)=>json!({"k":"constexpr","e":expr(e)}), o=>json!({"k":"unsupported","t":txt(o)})}).collect::<Vec<_>>()),
            "a":m.args.iter().map(expr).collect::<Vec<_>>()}),
        Expr::Field(f) => json!({"k":"field","e":expr(&f.base),"n":txt(&f.member)}),
        Expr::Index(i) => json!({"k":"index","e":expr(&i.expr),"i":expr(&i.index)}),
        Expr::Reference(r) => json!({"k":"ref","m":r.mutability.is_some(),"e":expr(&r.expr)}),
        Expr::Assign(a) => json!({"k":"assign","l":expr(&a.left),"r":expr(&a.right)}),
        Expr::Block(b) => json!({"k":"block","b":block(&b.block),"lab":lab(&b.label)}),
        Expr::Unsafe(b) => json!({"k":"block","b":block(&b.block),"unsafe":true,"lab":null}),
        Expr::If(i) => json!({"k":"if","c":expr(&i.cond),"t":block(&i.then_branch),"e":i.else_branch.as_ref().map(|(_,e)| expr(e))}),
        Expr::Let(l) => json!({"k":"letc","p":pat(&l.pat),"e":expr(&l.expr)}),
        Expr::While(w) => json!({"k":"while","c":expr(&w.cond),"b":block(&w.body),"lab":lab(&w.label)}),
        Expr::Loop(w) => json!({"k":"loop","b":block(&w.body),"lab":lab(&w.label)}),
        Expr::ForLoop(f) => json!({"k":"for","p":pat(&f.pat),"e":expr(&f.expr),"b":block(&f.body),"lab":lab(&f.label)}),
        Expr::Match(m) => json!({"k":"match","e":expr(&m.expr),"arms":m.arms.iter().map(|a| json!({"p":pat(&a.pat),"g":a.guard.as_ref().map(|(_,g)| expr(g)),"b":expr(&a.body)})).collect::<Vec<_>>()}),
        Expr::Return(r) => json!({"k":"return","e":r.expr.as_ref().map(|e| expr(e))}),
        Expr::Break(b) => json!({"k":"break","e":b.expr.as_ref().map(|e| expr(e)),"lab":b.label.as_ref().map(|l| l.ident.to_string())}),
        Expr::Continue(b) => json!({"k":"continue","lab":b.label.as_ref().map(|l| l.ident.to_string())}),
        Expr::Tuple(t) => json!({"k":"tuple","e":t.elems.iter().map(expr).collect::<Vec<_>>()}),
        Expr::Array(t) => json!({"k":"array","e":t.elems.iter().map(expr).collect::<Vec<_>>()}),
        Expr::Repeat(r) => json!({"k":"repeat","e":expr(&r.expr),"n":expr(&r.len)}),
        Expr::Struct(s) => json!({"k":"struct","p":path(&s.path),"f":s.fields.iter().map(|f| json!({"n":txt(&f.member),"e":expr(&f.expr)})).collect::<Vec<_>>(),"rest":s.rest.as_ref().map(|e| expr(e))}),
        Expr::Cast(c) => json!({"k":"cast","e":expr(&c.expr),"t":ty(&c.ty)}),
        Expr::Range(r) => json!({"k":"range","lo":r.start.as_ref().map(|e| expr(e)),"hi":r.end.as_ref().map(|e| expr(e)),"incl":matches!(r.limits, RangeLimits::Closed(_))}),
        Expr::Closure(c) => json!({"k":"closure","a":c.inputs.iter().map(pat).collect::<Vec<_>>(),"b":expr(&c.body)}),
        Expr::Try(t) => json!({"k":"try","e":expr(&t.expr)}),
        Expr::Macro(m) => mac(&m.mac),
        Expr::Const(c) => json!({"k":"block","b":block(&c.block),"lab":null}),
        o => unsup(o),
    }
}
fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| { let t = txt(a).replace(' ', ""); t == "#[test]" || t.starts_with("#[cfg(test") || t.starts_with("#[cfg(all(test") })
}
fn cfgs(attrs: &[Attribute]) -> Vec<String> {
    attrs.iter().map(|a| txt(a).replace(' ', "")).filter(|t| t.starts_with("#[cfg")).collect()
}
fn generics(g: &Generics) -> J {
    json!({"t": txt(&g.params), "w": g.where_clause.as_ref().map(|w| txt(w)),
      "names": g.params.iter().map(|p| match p { GenericParam::Type(t)=>json!({"k":"type","n":t.ident.to_string()}), GenericParam::Const(c)=>json!({"k":"const","n":c.ident.to_string(),"t":ty(&c.ty)}), GenericParam::Lifetime(l)=>json!({"k":"lt","n":l.lifetime.ident.to_string()})}).collect::<Vec<_>>()})
}
fn func(attrs: &[Attribute], vis: &str, sig: &Signature, b: Option<&Block>) -> J {
    json!({"k":"fn","n":sig.ident.to_string(),"vis":vis,"cfg":cfgs(attrs),"gen":generics(&sig.generics),"ln":ln(sig.ident.span()),
      "args": sig.inputs.iter().map(|a| match a {
          FnArg::Receiver(r) => json!({"k":"self","ref":r.reference.is_some(),"m":r.mutability.is_some()}),
          FnArg::Typed(t) => json!({"k":"arg","p":pat(&t.pat),"t":ty(&t.ty)}) }).collect::<Vec<_>>(),
      "ret": match &sig.output { ReturnType::Default => J::Null, ReturnType::Type(_, t) => ty(t) },
      "unsafe": sig.unsafety.is_some(),
      "body": b.map(block)})
}
fn item(i: &Item) -> J {
    match i {
        Item::Fn(f) => if is_test(&f.attrs) { J::Null } else { func(&f.attrs, &txt(&f.vis), &f.sig, Some(&f.block)) },
        Item::Impl(im) => if is_test(&im.attrs) { J::Null } else { json!({"k":"impl","ty":ty(&im.self_ty),"trait":im.trait_.as_ref().map(|(_,p,_)| path(p)),"cfg":cfgs(&im.attrs),"gen":generics(&im.generics),"ln":ln(im.impl_token.span),
            "items": im.items.iter().map(|x| match x {
                ImplItem::Fn(f) => if is_test(&f.attrs) { J::Null } else { func(&f.attrs, &txt(&f.vis), &f.sig, Some(&f.block)) },
                ImplItem::Const(c) => json!({"k":"const","n":c.ident.to_string(),"t":ty(&c.ty),"e":expr(&c.expr)}),
                ImplItem::Type(t) => json!({"k":"type","n":t.ident.to_string(),"t":ty(&t.ty)}),
                o => unsup(o) }).collect::<Vec<_>>()}) },
        Item::Trait(t) => json!({"k":"trait","n":t.ident.to_string(),"gen":generics(&t.generics),"items":t.items.iter().map(|x| match x {
                TraitItem::Fn(f) => func(&f.attrs, "", &f.sig, f.default.as_ref()),
                TraitItem::Const(c) => json!({"k":"const","n":c.ident.to_string(),"t":ty(&c.ty),"e":c.default.as_ref().map(|(_,e)| expr(e))}),
                o => unsup(o) }).collect::<Vec<_>>()}),
        Item::Const(c) => json!({"k":"const","n":c.ident.to_string(),"cfg":cfgs(&c.attrs),"t":ty(&c.ty),"e":expr(&c.expr)}),
        Item::Static(c) => json!({"k":"const","n":c.ident.to_string(),"cfg":cfgs(&c.attrs),"t":ty(&c.ty),"e":expr(&c.expr),"static":true}),
        Item::Struct(s) => json!({"k":"struct","n":s.ident.to_string(),"gen":generics(&s.generics),"derive":s.attrs.iter().map(txt).collect::<Vec<_>>(),
            "tuple": matches!(s.fields, Fields::Unnamed(_)),
            "f": s.fields.iter().enumerate().map(|(i,f)| json!({"n":f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()),"t":ty(&f.ty),"attrs":f.attrs.iter().map(txt).collect::<Vec<_>>()})).collect::<Vec<_>>()}),
        Item::Enum(s) => json!({"k":"enum","n":s.ident.to_string(),"gen":generics(&s.generics),
            "v": s.variants.iter().map(|v| json!({"n":v.ident.to_string(),"f":v.fields.iter().map(|f| json!({"n":f.ident.as_ref().map(|x| x.to_string()),"t":ty(&f.ty)})).collect::<Vec<_>>(),"d":v.discriminant.as_ref().map(|(_,e)| expr(e))})).collect::<Vec<_>>()}),
        Item::Type(t) => json!({"k":"type","n":t.ident.to_string(),"t":ty(&t.ty)}),
        Item::Use(u) => json!({"k":"use","t":txt(&u.tree)}),
        Item::Mod(m) => if is_test(&m.attrs) { J::Null } else { json!({"k":"mod","n":m.ident.to_string(),"cfg":cfgs(&m.attrs),
            "items":m.content.as_ref().map(|(_,c)| c.iter().map(item).collect::<Vec<_>>())}) },
        Item::Macro(m) => {
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            if name == "lazy_static" {
                let p = |i: ParseStream| -> Result<Vec<J>> {
                    let mut v = vec![];
                    while !i.is_empty() {
                        let attrs = i.call(Attribute::parse_outer)?;
                        let _vis: Visibility = i.parse()?; i.parse::<Token![static]>()?; i.parse::<Token![ref]>()?;
                        let n: Ident = i.parse()?; i.parse::<Token![:]>()?; let t: Type = i.parse()?; i.parse::<Token![=]>()?;
                        let e: Expr = i.parse()?; i.parse::<Token![;]>()?;
                        v.push(json!({"k":"const","n":n.to_string(),"t":ty(&t),"e":expr(&e),"lazy":true,"cfg":cfgs(&attrs)}));
                    }
                    Ok(v) };
                if let Ok(v) = p.parse2(m.mac.tokens.clone()) { return json!({"k":"lazy","cfg":cfgs(&m.attrs),"items":v}); }
            }
            if name == "macro_rules" || m.ident.is_some() { return json!({"k":"macrodef","n":m.ident.as_ref().map(|x| x.to_string()),"t":m.mac.tokens.to_string()}); }
            json!({"k":"macroitem","m":mac(&m.mac)})
        }
        o => unsup(o),
    }
}
/// macro_rules! with one rule whose parameters are single `$name: fragment` separated by commas: invocations at item
/// level are replaced by the body with the arguments put in, as the compiler does (recursively)
struct Mac { params: Vec<String>, body: TokenStream }
fn macros(items: &[Item], out: &mut std::collections::HashMap<String, Mac>) {
    for i in items {
        let Item::Macro(m) = i else { continue };
        let Some(name) = &m.ident else { continue };
        let tt: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
        // ( matcher ) = > { body } [;]
        if tt.len() < 4 || tt.len() > 5 { continue; }
        let (TokenTree::Group(a), TokenTree::Group(b)) = (&tt[0], &tt[3]) else { continue };
        let ms: Vec<TokenTree> = a.stream().into_iter().collect();
        let mut params = vec![];
        let mut ok = true;
        let mut k = 0;
        while k < ms.len() {
            let d = |j: usize, c: char| matches!(ms.get(j), Some(TokenTree::Punct(p)) if p.as_char() == c);
            if d(k, '$') && d(k + 2, ':') && matches!((ms.get(k + 1), ms.get(k + 3)), (Some(TokenTree::Ident(_)), Some(TokenTree::Ident(_)))) {
                params.push(ms[k + 1].to_string());
                k += 4;
                if k < ms.len() { if d(k, ',') { k += 1 } else { ok = false; break } }
            } else { ok = false; break }
        }
        if ok { out.insert(name.to_string(), Mac { params, body: b.stream() }); }
    }
}
fn subst(t: TokenStream, s: &std::collections::HashMap<String, TokenStream>) -> TokenStream {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Punct(p) if p.as_char() == '$' => {
                if let Some(TokenTree::Ident(n)) = v.get(i + 1) { if let Some(x) = s.get(&n.to_string()) { out.extend(x.clone()); i += 2; continue; } }
                out.extend(std::iter::once(v[i].clone()));
            }
            TokenTree::Group(g) => {
                let mut h = proc_macro2::Group::new(g.delimiter(), subst(g.stream(), s));
                h.set_span(g.span());
                out.extend(std::iter::once(TokenTree::Group(h)));
            }
            x => out.extend(std::iter::once(x.clone())),
        }
        i += 1;
    }
    out
}
fn expand(items: Vec<Item>, ms: &std::collections::HashMap<String, Mac>, depth: usize) -> Vec<Item> {
    let mut out = vec![];
    for i in items {
        if let Item::Macro(m) = &i {
            if m.ident.is_none() && depth < 8 {
                if let Some(d) = ms.get(&m.mac.path.segments.last().unwrap().ident.to_string()) {
                    let mut args: Vec<TokenStream> = vec![];
                    let mut cur = TokenStream::new();
                    for x in m.mac.tokens.clone() {
                        if matches!(&x, TokenTree::Punct(p) if p.as_char() == ',') { args.push(std::mem::take(&mut cur)); } else { cur.extend(std::iter::once(x)); }
                    }
                    if !cur.is_empty() { args.push(cur); }
                    if args.len() == d.params.len() {
                        let s = d.params.iter().cloned().zip(args).collect();
                        if let Ok(f) = parse2::<File>(subst(d.body.clone(), &s)) {
                            out.extend(expand(f.items, ms, depth + 1));
                            continue;
                        }
                    }
                }
            }
        }
        out.push(i);
    }
    out
}
fn main() {
    let mut out = serde_json::Map::new();
    for f in std::env::args().skip(1) {
        let s = match std::fs::read_to_string(&f) { Ok(s) => s, Err(e) => { out.insert(f, json!({"error":e.to_string()})); continue; } };
        let v = match parse_file(&s) {
            Ok(p) => {
                let mut ms = Default::default();
                macros(&p.items, &mut ms);
                let items = expand(p.items, &ms, 0);
                json!({"items": items.iter().map(item).filter(|x| !x.is_null()).collect::<Vec<_>>()})
            }
            Err(e) => json!({"error": e.to_string()}),
        };
        out.insert(f, v);
    }
    let _ = TokenStream::new();
    println!("{}", J::Object(out));
}
