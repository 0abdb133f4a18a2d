extern crate proc_macro;
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::*;

fn path_is(a: &Attribute, n: &str) -> bool {
    a.path.segments.last().map_or(false, |s| s.ident == n)
}
/// name = "x" in an attribute's arguments
fn named(args: &proc_macro2::TokenStream) -> Option<String> {
    let l = syn::parse::Parser::parse2(punctuated::Punctuated::<NestedMeta, Token![,]>::parse_terminated, args.clone()).ok()?;
    for m in l {
        if let NestedMeta::Meta(Meta::NameValue(nv)) = m {
            if nv.path.is_ident("name") {
                if let Lit::Str(s) = nv.lit {
                    return Some(s.value());
                }
            }
        }
    }
    None
}
fn inner(a: &Attribute) -> proc_macro2::TokenStream {
    match a.tokens.clone().into_iter().next() {
        Some(proc_macro2::TokenTree::Group(g)) => g.stream(),
        _ => Default::default(),
    }
}

#[proc_macro_attribute]
pub fn pyclass(args: TokenStream, item: TokenStream) -> TokenStream {
    let mut s = parse_macro_input!(item as ItemStruct);
    let n = s.ident.clone();
    let name = named(&args.into()).unwrap_or_else(|| n.to_string());
    let mut gets = vec![];
    for f in s.fields.iter_mut() {
        let mut get = false;
        let mut as_ = f.ident.as_ref().map(|i| i.to_string());
        f.attrs.retain(|a| {
            if path_is(a, "pyo3") {
                let t = inner(a);
                get |= t.to_string().split(',').any(|w| w.trim() == "get");
                if let Some(x) = named(&t) {
                    as_ = Some(x);
                }
                return false;
            }
            true
        });
        if get {
            let i = f.ident.clone().unwrap();
            let k = as_.unwrap();
            gets.push(quote! { #k => Some(::pyo3::IntoPy::into_py(self.#i.clone())), });
        }
    }
    quote! {
        #s
        impl ::pyo3::PyClass for #n {
            const NAME: &'static str = #name;
            fn field(&self, name: &str) -> Option<::pyo3::PyAny> {
                match name { #(#gets)* _ => None }
            }
        }
    }
    .into()
}

/// (statements that extract the arguments, names, expressions to pass)
fn params(sig: &Signature, defaults: &[(String, Expr)]) -> (Vec<proc_macro2::TokenStream>, Vec<String>, Vec<proc_macro2::TokenStream>) {
    let (mut st, mut names, mut pass) = (vec![], vec![], vec![]);
    for a in sig.inputs.iter() {
        let t = match a {
            FnArg::Typed(t) => t,
            _ => continue,
        };
        let mut ty = (*t.ty).clone();
        if let Type::Path(p) = &ty {
            if p.path.segments.last().map_or(false, |s| s.ident == "Python") {
                pass.push(quote! { ::pyo3::Python::stub() });
                continue;
            }
        }
        let id = match &*t.pat {
            Pat::Ident(i) => i.ident.clone(),
            _ => panic!("parameter pattern"),
        };
        let name = id.to_string();
        let i = names.len();
        let mut opt = false;
        if let Type::Path(p) = &ty {
            let s = p.path.segments.last().unwrap();
            if s.ident == "Option" {
                if let PathArguments::AngleBracketed(b) = &s.arguments {
                    if let Some(GenericArgument::Type(t)) = b.args.first() {
                        opt = true;
                        let t = t.clone();
                        ty = t;
                    }
                }
            }
        }
        let ex = match &ty {
            Type::Reference(r) => match &*r.elem {
                Type::Path(p) if p.path.is_ident("str") => quote! { ::pyo3::as_str(v)? },
                Type::Path(p) if p.path.segments.last().unwrap().ident == "PyAny" => quote! { v },
                e if r.mutability.is_some() => quote! { ::pyo3::as_inst_mut::<#e>(v)? },
                e => quote! { ::pyo3::as_inst::<#e>(v)? },
            },
            t => quote! { <#t as ::pyo3::FromPyObject>::extract(v)? },
        };
        let d = defaults.iter().find(|d| d.0 == name).map(|d| &d.1);
        let none = match d {
            Some(e) => quote! { #e },
            None if opt => quote! { None },
            None => quote! { return ::pyo3::missing(#name) },
        };
        let var = format_ident!("arg_{}", i);
        st.push(if opt {
            quote! { let #var = match ::pyo3::arg(a, #i, #name)? { Some(::pyo3::PyAny::None) => None, Some(v) => Some(#ex), None => #none }; }
        } else {
            quote! { let #var = match ::pyo3::arg(a, #i, #name)? { Some(v) => #ex, None => #none }; }
        });
        names.push(name);
        pass.push(quote! { #var });
    }
    (st, names, pass)
}

#[proc_macro_attribute]
pub fn pymethods(_args: TokenStream, item: TokenStream) -> TokenStream {
    let mut im = parse_macro_input!(item as ItemImpl);
    let ty = im.self_ty.clone();
    let mut new = quote! { ::pyo3::missing("no constructor") };
    let (mut calls, mut gets) = (vec![], vec![]);
    for it in im.items.iter_mut() {
        let m = match it {
            ImplItem::Method(m) => m,
            _ => continue,
        };
        let (mut is_new, mut getter, mut stat) = (false, false, false);
        let mut defaults: Vec<(String, Expr)> = vec![];
        let mut name = m.sig.ident.to_string();
        m.attrs.retain(|a| {
            if path_is(a, "new") {
                is_new = true;
            } else if path_is(a, "getter") {
                getter = true;
                let t = inner(a).to_string();
                if !t.is_empty() {
                    name = t;
                } else if let Some(n) = name.strip_prefix("get_") {
                    name = n.to_string();
                }
            } else if path_is(a, "staticmethod") {
                stat = true;
            } else if path_is(a, "pyo3") {
                if let Some(n) = named(&inner(a)) {
                    name = n;
                }
            } else if path_is(a, "args") {
                let l = syn::parse::Parser::parse2(punctuated::Punctuated::<NestedMeta, Token![,]>::parse_terminated, inner(a))
                    .expect("args");
                for x in l {
                    if let NestedMeta::Meta(Meta::NameValue(nv)) = x {
                        let e: Expr = match &nv.lit {
                            Lit::Str(s) => s.parse().expect("default value"),
                            l => Expr::Lit(ExprLit { attrs: vec![], lit: l.clone() }),
                        };
                        defaults.push((nv.path.get_ident().unwrap().to_string(), e));
                    }
                }
            } else {
                return !path_is(a, "setter") && !path_is(a, "classattr");
            }
            false
        });
        let id = m.sig.ident.clone();
        let (st, names, pass) = params(&m.sig, &defaults);
        if is_new {
            let is_res = !m.sig.output.clone().eq_self();
            let v = quote! { Self::#id(#(#pass),*) };
            let v = if is_res { quote! { #v? } } else { v };
            new = quote! { ::pyo3::arity(a, &[#(#names),*])?; #(#st)* Ok(::pyo3::inst(#v)) };
            continue;
        }
        let has_self = m.sig.inputs.iter().any(|a| matches!(a, FnArg::Receiver(_)));
        if getter {
            gets.push(quote! { #name => Some(::pyo3::Ret::ret(self.#id(#(#pass),*))), });
            continue;
        }
        let call = if has_self && !stat { quote! { self.#id(#(#pass),*) } } else { quote! { Self::#id(#(#pass),*) } };
        calls.push(quote! { #name => { ::pyo3::arity(a, &[#(#names),*])?; #(#st)* ::pyo3::Ret::ret(#call) } });
    }
    quote! {
        #im
        #[allow(unused_variables, unreachable_code)]
        impl ::pyo3::PyMethods for #ty {
            fn py_new(a: ::pyo3::Args) -> ::pyo3::PyResult<::pyo3::PyAny> { #new }
            fn py_call(&mut self, name: &str, a: ::pyo3::Args) -> ::pyo3::PyResult<::pyo3::PyAny> {
                match name { #(#calls)* _ => Err(::pyo3::PyErr::of("AttributeError", name)) }
            }
            fn py_get(&self, name: &str) -> Option<::pyo3::PyResult<::pyo3::PyAny>> {
                match name { #(#gets)* _ => None }
            }
        }
    }
    .into()
}
trait EqSelf {
    fn eq_self(&self) -> bool;
}
impl EqSelf for ReturnType {
    /// the result is the object itself, not a Result
    fn eq_self(&self) -> bool {
        match self {
            ReturnType::Type(_, t) => match &**t {
                Type::Path(p) => {
                    let s = p.path.segments.last().unwrap();
                    !(s.ident == "PyResult" || s.ident == "Result")
                }
                _ => true,
            },
            _ => true,
        }
    }
}

#[proc_macro_attribute]
pub fn pymodule(_args: TokenStream, item: TokenStream) -> TokenStream {
    let mut f = parse_macro_input!(item as ItemFn);
    let mut name = f.sig.ident.to_string();
    f.attrs.retain(|a| {
        if path_is(a, "pyo3") {
            if let Some(n) = named(&inner(a)) {
                name = n;
            }
            return false;
        }
        true
    });
    let id = f.sig.ident.clone();
    let g = format_ident!("sx_module_{}", name);
    quote! {
        #f
        #[allow(dead_code)]
        pub fn #g() -> ::pyo3::PyResult<::pyo3::PyModule> {
            let m = ::pyo3::PyModule::named(#name);
            #id(::pyo3::Python::stub(), &m)?;
            Ok(m)
        }
    }
    .into()
}
#[proc_macro_attribute]
pub fn pyfunction(_args: TokenStream, item: TokenStream) -> TokenStream {
    item
}

#[proc_macro_derive(FromPyObject, attributes(pyo3))]
pub fn from_py_object(item: TokenStream) -> TokenStream {
    let s = parse_macro_input!(item as ItemStruct);
    let n = s.ident.clone();
    let mut fs = vec![];
    for f in s.fields.iter() {
        let i = f.ident.clone().expect("named fields");
        let mut k = i.to_string();
        for a in f.attrs.iter().filter(|a| path_is(a, "pyo3")) {
            let t = inner(a).to_string();
            if let (Some(x), Some(y)) = (t.find('"'), t.rfind('"')) {
                if x < y {
                    k = t[x + 1..y].to_string();
                }
            }
        }
        fs.push(quote! { #i: { let v = o.getattr(#k)?; ::pyo3::FromPyObject::extract(Box::leak(Box::new(v)))? }, });
    }
    quote! {
        impl<'a> ::pyo3::FromPyObject<'a> for #n {
            fn extract(o: &'a ::pyo3::PyAny) -> ::pyo3::PyResult<Self> {
                Ok(#n { #(#fs)* })
            }
        }
    }
    .into()
}
