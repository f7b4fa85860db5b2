extern crate proc_macro;
use proc_macro::TokenStream;
use proc_macro2::TokenStream as T2;
use quote::quote;
use syn::{parse_macro_input, Attribute, Data, DeriveInput, Fields, Lit, Meta, NestedMeta};

#[derive(Default)]
struct Opt {
    sub: bool,
    skip: bool,
    short: Option<String>,
    long: Option<String>,
    name: Option<String>,
    default: Option<String>,
}

fn kebab(s: &str) -> String {
    let mut o = String::new();
    for (i, c) in s.chars().enumerate() {
        if c.is_uppercase() {
            if i > 0 {
                o.push('-');
            }
            o.extend(c.to_lowercase());
        } else {
            o.push(if c == '_' { '-' } else { c });
        }
    }
    o
}

fn opt(attrs: &[Attribute], field: &str) -> Opt {
    let mut o = Opt::default();
    for a in attrs {
        if !a.path.is_ident("clap") {
            continue;
        }
        let list = match a.parse_meta() {
            Ok(Meta::List(l)) => l,
            _ => panic!("unsupported clap attribute"),
        };
        for n in list.nested {
            match n {
                NestedMeta::Meta(Meta::Path(p)) => {
                    if p.is_ident("subcommand") {
                        o.sub = true
                    } else if p.is_ident("skip") {
                        o.skip = true
                    } else if p.is_ident("short") {
                        o.short = Some(field.chars().next().unwrap().to_string())
                    } else if p.is_ident("long") {
                        o.long = Some(kebab(field))
                    }
                }
                NestedMeta::Meta(Meta::NameValue(nv)) => {
                    let v = match &nv.lit {
                        Lit::Str(s) => s.value(),
                        Lit::Char(c) => c.value().to_string(),
                        _ => continue,
                    };
                    if nv.path.is_ident("short") {
                        o.short = Some(v)
                    } else if nv.path.is_ident("long") {
                        o.long = Some(v)
                    } else if nv.path.is_ident("name") {
                        o.name = Some(v)
                    } else if nv.path.is_ident("default_value") {
                        o.default = Some(v)
                    }
                }
                _ => {}
            }
        }
    }
    o
}
fn o(s: &Option<String>) -> T2 {
    match s {
        Some(s) => quote!(::core::option::Option::Some(#s)),
        None => quote!(::core::option::Option::None),
    }
}

#[proc_macro_derive(Clap, attributes(clap))]
pub fn derive(input: TokenStream) -> TokenStream {
    let i = parse_macro_input!(input as DeriveInput);
    let name = &i.ident;
    let body = match &i.data {
        Data::Struct(s) => {
            let f = match &s.fields {
                Fields::Named(f) => f,
                _ => panic!("clap stand-in: named fields only"),
            };
            let mut vals = vec![];
            let mut names = vec![];
            let mut sub = false;
            for x in &f.named {
                let id = x.ident.as_ref().unwrap();
                let ty = &x.ty;
                let a = opt(&x.attrs, &id.to_string());
                if a.sub {
                    sub = true;
                    vals.push(quote!(#id: <#ty as ::clap::Clap>::from_list(args)?));
                    continue;
                }
                if a.skip {
                    vals.push(quote!(#id: ::core::default::Default::default()));
                    continue;
                }
                if let Some(n) = &a.short {
                    let n = format!("-{}", n);
                    names.push(quote!(#n.to_string()));
                }
                if let Some(n) = &a.long {
                    let n = format!("--{}", n);
                    names.push(quote!(#n.to_string()));
                }
                let (s, l) = (o(&a.short), o(&a.long));
                let missing = match &a.default {
                    Some(d) => quote!(#d.to_string()),
                    None => {
                        let m = format!("missing {}", id);
                        quote!(return Err(#m.to_string()))
                    }
                };
                vals.push(quote!(#id: match ::clap::value(args, #s, #l)? { Some(v) => v, None => #missing }.parse::<#ty>().map_err(|e| format!("{:?}", e))?));
            }
            let check = if sub { quote!() } else { quote!(::clap::check(args, &[#(#names),*])?;) };
            quote!(#check Ok(#name { #(#vals),* }))
        }
        Data::Enum(e) => {
            let arms = e.variants.iter().map(|v| {
                let id = &v.ident;
                let a = opt(&v.attrs, &id.to_string());
                let n = a.name.unwrap_or_else(|| kebab(&id.to_string()));
                match &v.fields {
                    Fields::Unnamed(u) if u.unnamed.len() == 1 => {
                        let ty = &u.unnamed[0].ty;
                        quote!(Some(#n) => Ok(#name::#id(<#ty as ::clap::Clap>::from_list(&args[1..])?)))
                    }
                    Fields::Unit => quote!(Some(#n) => Ok(#name::#id)),
                    _ => panic!("clap stand-in: one unnamed field per subcommand"),
                }
            });
            quote!(match args.get(0).map(|s| s.as_str()) { #(#arms,)* _ => Err("no such command".to_string()) })
        }
        _ => panic!("clap stand-in: no unions"),
    };
    quote!(
        impl ::clap::Clap for #name {
            fn from_list(args: &[String]) -> ::core::result::Result<Self, String> {
                #body
            }
        }
    )
    .into()
}
