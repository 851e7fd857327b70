//! The attribute macros of pyo3 that the module uses, expanding to the stand-in's plain items.

use proc_macro::TokenStream;
use proc_macro2::TokenStream as T2;
use quote::{format_ident, quote};
use syn::parse::{Parse, ParseStream};
use syn::punctuated::Punctuated;
use syn::{parse_macro_input, Attribute, Expr, FnArg, Ident, ImplItem, ItemFn, ItemImpl, ItemStruct, Pat, Token, Type};

struct SigArg {
    name: Ident,
    default: Option<Expr>,
    keyword_only: bool,
}

struct Signature(Vec<SigArg>);

impl Parse for Signature {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        let inner;
        syn::parenthesized!(inner in input);
        let mut v = vec![];
        let mut keyword_only = false;
        while !inner.is_empty() {
            if inner.peek(Token![*]) {
                inner.parse::<Token![*]>()?;
                keyword_only = true;
            } else if inner.peek(Token![/]) {
                inner.parse::<Token![/]>()?;
            } else {
                let name: Ident = inner.parse()?;
                let default = if inner.peek(Token![=]) {
                    inner.parse::<Token![=]>()?;
                    Some(inner.parse()?)
                } else {
                    None
                };
                v.push(SigArg { name, default, keyword_only });
            }
            if !inner.is_empty() {
                inner.parse::<Token![,]>()?;
            }
        }
        Ok(Signature(v))
    }
}

enum Opt {
    Signature(Signature),
    Name(String),
    Other,
}

impl Parse for Opt {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        let k: Ident = input.call(syn::ext::IdentExt::parse_any)?;
        if !input.peek(Token![=]) {
            return Ok(Opt::Other);
        }
        input.parse::<Token![=]>()?;
        if k == "signature" {
            return Ok(Opt::Signature(input.parse()?));
        }
        let e: Expr = input.parse()?;
        if let (true, Expr::Lit(l)) = (k == "name", &e) {
            if let syn::Lit::Str(s) = &l.lit {
                return Ok(Opt::Name(s.value()));
            }
        }
        Ok(Opt::Other)
    }
}

struct Opts(Vec<Opt>);
impl Parse for Opts {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        Ok(Opts(Punctuated::<Opt, Token![,]>::parse_terminated(input)?.into_iter().collect()))
    }
}

/// Takes the `#[pyo3(...)]` attributes off.
fn take_opts(attrs: &mut Vec<Attribute>) -> syn::Result<Vec<Opt>> {
    let mut out = vec![];
    let mut keep = vec![];
    for a in attrs.drain(..) {
        if a.path().is_ident("pyo3") {
            out.extend(a.parse_args::<Opts>()?.0);
        } else {
            keep.push(a);
        }
    }
    *attrs = keep;
    Ok(out)
}

fn is_python(t: &Type) -> bool {
    matches!(t, Type::Path(p) if p.path.segments.last().is_some_and(|s| s.ident == "Python"))
}

/// The type to extract and how to pass it.
fn passing(t: &Type, v: &Ident) -> (T2, T2) {
    let s = quote!(#t).to_string().replace(' ', "");
    match s.as_str() {
        "&str" => (quote!(::std::string::String), quote!(&#v)),
        "&[u8]" => (quote!(::std::vec::Vec<u8>), quote!(&#v)),
        "Option<&str>" => (quote!(::std::option::Option<::std::string::String>), quote!(#v.as_deref())),
        "Option<&[u8]>" => (quote!(::std::option::Option<::std::vec::Vec<u8>>), quote!(#v.as_deref())),
        _ => {
            if let Type::Reference(r) = t {
                let e = &r.elem;
                (quote!(#e), quote!(&#v))
            } else {
                (quote!(#t), quote!(#v))
            }
        }
    }
}

/// The body that parses the arguments and calls; `call` is the callee.
fn body(pyname: &str, inputs: &Punctuated<FnArg, Token![,]>, sig: Option<&Signature>, call: &T2, receiver: Option<T2>) -> syn::Result<T2> {
    let mut pass = vec![];
    pass.extend(receiver);
    let mut specs = vec![];
    let mut gets = vec![];
    let mut k = 0_usize;
    let declared: Vec<(Ident, Type)> = inputs
        .iter()
        .filter_map(|a| match a {
            FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(i) => Some((i.ident.clone(), (*t.ty).clone())),
                _ => Some((format_ident!("_arg"), (*t.ty).clone())),
            },
            FnArg::Receiver(_) => None,
        })
        .collect();
    let order: Vec<(Ident, Option<Expr>, bool)> = match sig {
        Some(s) => s.0.iter().map(|a| (a.name.clone(), a.default.clone(), a.keyword_only)).collect(),
        None => declared.iter().filter(|(_, t)| !is_python(t)).map(|(i, _)| (i.clone(), None, false)).collect(),
    };
    for (name, default, kw) in &order {
        let Some((_, ty)) = declared.iter().find(|(i, _)| i == name) else {
            return Err(syn::Error::new_spanned(name, "not an argument of the function"));
        };
        let v = format_ident!("__v_{}", name);
        let n = name.to_string();
        let required = default.is_none();
        specs.push(quote!(::pyo3::impl_::Param { name: #n, required: #required, keyword_only: #kw }));
        let (ext, _) = passing(ty, &v);
        let missing = match default {
            Some(e) => quote!({ let __d: #ext = #e; __d }),
            None => quote!(::std::unreachable!()),
        };
        gets.push(quote! {
            let #v: #ext = match __a.get(#k) {
                ::std::option::Option::Some(o) => ::pyo3::impl_::extract(__py, o, #n)?,
                ::std::option::Option::None => #missing,
            };
        });
        k += 1;
    }
    for (name, ty) in &declared {
        if is_python(ty) {
            pass.push(quote!(__py));
        } else {
            let v = format_ident!("__v_{}", name);
            pass.push(passing(ty, &v).1);
        }
    }
    Ok(quote! {
        let __a = ::pyo3::impl_::Args::parse(__py, #pyname, &[#(#specs),*], __args, __kwargs)?;
        #(#gets)*
        ::pyo3::impl_::finish(__py, #call(#(#pass),*))
    })
}

fn docs(attrs: &[Attribute]) -> String {
    let mut s = vec![];
    for a in attrs {
        if let (true, syn::Meta::NameValue(n)) = (a.path().is_ident("doc"), &a.meta) {
            if let Expr::Lit(l) = &n.value {
                if let syn::Lit::Str(t) = &l.lit {
                    s.push(t.value().trim_start_matches(' ').to_string());
                }
            }
        }
    }
    s.join("\n")
}

#[proc_macro_attribute]
pub fn pyfunction(attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut f = parse_macro_input!(item as ItemFn);
    let mut opts = match take_opts(&mut f.attrs) {
        Ok(o) => o,
        Err(e) => return e.to_compile_error().into(),
    };
    let own = parse_macro_input!(attr as Opts);
    opts.extend(own.0);
    let name = f.sig.ident.clone();
    let mut pyname = name.to_string();
    let mut sig = None;
    for o in opts {
        match o {
            Opt::Signature(s) => sig = Some(s),
            Opt::Name(n) => pyname = n,
            Opt::Other => {}
        }
    }
    let wrap = format_ident!("__pyfunction_{}", name);
    let vis = &f.vis;
    let doc = docs(&f.attrs);
    let b = match body(&pyname, &f.sig.inputs, sig.as_ref(), &quote!(#name), None) {
        Ok(b) => b,
        Err(e) => return e.to_compile_error().into(),
    };
    quote! {
        #f
        #[doc(hidden)]
        #[allow(clippy::all, clippy::pedantic)]
        #vis unsafe extern "C" fn #wrap(_slf: *mut ::pyo3::ffi::PyObject, __args: *mut ::pyo3::ffi::PyObject, __kwargs: *mut ::pyo3::ffi::PyObject) -> *mut ::pyo3::ffi::PyObject {
            ::pyo3::impl_::trampoline(|__py| { #b })
        }
        #[doc(hidden)]
        #vis mod #name {
            pub const DEF: ::pyo3::impl_::FnDef = ::pyo3::impl_::FnDef { name: #pyname, doc: #doc, meth: super::#wrap };
        }
    }
    .into()
}

#[proc_macro_attribute]
pub fn pyclass(attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut s = parse_macro_input!(item as ItemStruct);
    let mut opts = match take_opts(&mut s.attrs) {
        Ok(o) => o,
        Err(e) => return e.to_compile_error().into(),
    };
    opts.extend(parse_macro_input!(attr as Opts).0);
    let name = s.ident.clone();
    let mut pyname = name.to_string();
    for o in opts {
        if let Opt::Name(n) = o {
            pyname = n;
        }
    }
    quote! {
        #s
        impl ::pyo3::impl_::PyClass for #name {
            const NAME: &'static str = #pyname;
            fn cell() -> &'static ::pyo3::impl_::TypeCell {
                static CELL: ::pyo3::impl_::TypeCell = ::pyo3::impl_::TypeCell::new();
                &CELL
            }
        }
    }
    .into()
}

#[proc_macro_attribute]
pub fn pymethods(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut imp = parse_macro_input!(item as ItemImpl);
    let ty = imp.self_ty.clone();
    let mut defs = vec![];
    for it in &mut imp.items {
        let ImplItem::Fn(f) = it else { continue };
        let opts = match take_opts(&mut f.attrs) {
            Ok(o) => o,
            Err(e) => return e.to_compile_error().into(),
        };
        let name = f.sig.ident.clone();
        let mut pyname = name.to_string();
        let mut sig = None;
        for o in opts {
            match o {
                Opt::Signature(s) => sig = Some(s),
                Opt::Name(n) => pyname = n,
                Opt::Other => {}
            }
        }
        let doc = docs(&f.attrs);
        let mutable = matches!(f.sig.receiver(), Some(r) if r.mutability.is_some());
        let recv = if mutable { quote!(&mut *__this) } else { quote!(&*__this) };
        let b = match body(&pyname, &f.sig.inputs, sig.as_ref(), &quote!(#ty::#name), Some(recv)) {
            Ok(b) => b,
            Err(e) => return e.to_compile_error().into(),
        };
        defs.push(quote! {{
            unsafe extern "C" fn wrap(__slf: *mut ::pyo3::ffi::PyObject, __args: *mut ::pyo3::ffi::PyObject, __kwargs: *mut ::pyo3::ffi::PyObject) -> *mut ::pyo3::ffi::PyObject {
                ::pyo3::impl_::trampoline(|__py| {
                    let __this = unsafe { ::pyo3::impl_::contents::<#ty>(__slf) };
                    #b
                })
            }
            unsafe extern "C" fn unary(__slf: *mut ::pyo3::ffi::PyObject) -> *mut ::pyo3::ffi::PyObject {
                unsafe { wrap(__slf, ::std::ptr::null_mut(), ::std::ptr::null_mut()) }
            }
            ::pyo3::impl_::MethodDef { def: ::pyo3::impl_::FnDef { name: #pyname, doc: #doc, meth: wrap }, unary }
        }});
    }
    quote! {
        #imp
        #[allow(clippy::all, clippy::pedantic)]
        impl ::pyo3::impl_::PyMethods for #ty {
            fn methods() -> ::std::vec::Vec<::pyo3::impl_::MethodDef> {
                ::std::vec![#(#defs),*]
            }
        }
    }
    .into()
}

#[proc_macro_attribute]
pub fn pymodule(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let mut f = parse_macro_input!(item as ItemFn);
    let opts = match take_opts(&mut f.attrs) {
        Ok(o) => o,
        Err(e) => return e.to_compile_error().into(),
    };
    let name = f.sig.ident.clone();
    let mut pyname = name.to_string();
    for o in opts {
        if let Opt::Name(n) = o {
            pyname = n;
        }
    }
    let init = format_ident!("PyInit_{}", pyname);
    let takes_py = f.sig.inputs.iter().any(|a| matches!(a, FnArg::Typed(t) if is_python(&t.ty)));
    let call = if takes_py { quote!(#name(__py, __m)) } else { quote!(#name(__m)) };
    quote! {
        #f
        #[unsafe(no_mangle)]
        #[allow(non_snake_case)]
        pub unsafe extern "C" fn #init() -> *mut ::pyo3::ffi::PyObject {
            ::pyo3::impl_::module(#pyname, |__py, __m| { #call })
        }
    }
    .into()
}
