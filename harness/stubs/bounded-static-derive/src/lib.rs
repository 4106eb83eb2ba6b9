use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Fields, GenericParam};

#[proc_macro_derive(ToStatic)]
pub fn to_static(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let (ig, tg, wc) = input.generics.split_for_impl();
    let statics: Vec<_> = input.generics.params.iter().map(|p| match p {
        GenericParam::Lifetime(_) => quote!('static),
        GenericParam::Type(t) => { let i = &t.ident; quote!(#i) }
        GenericParam::Const(c) => { let i = &c.ident; quote!(#i) }
    }).collect();
    let st = if statics.is_empty() { quote!(#name) } else { quote!(#name<#(#statics),*>) };
    let arm = |path: proc_macro2::TokenStream, fields: &Fields, method: &str| {
        let m = format_ident!("{}", method);
        let tr = if method == "to_static" { quote!(::bounded_static::ToBoundedStatic) } else { quote!(::bounded_static::IntoBoundedStatic) };
        match fields {
            Fields::Unit => quote!(#path => #path),
            Fields::Named(f) => {
                let ids: Vec<_> = f.named.iter().map(|f| f.ident.clone().unwrap()).collect();
                quote!(#path { #(#ids),* } => #path { #(#ids: #tr::#m(#ids)),* })
            }
            Fields::Unnamed(f) => {
                let ids: Vec<_> = (0..f.unnamed.len()).map(|i| format_ident!("f{}", i)).collect();
                quote!(#path ( #(#ids),* ) => #path ( #(#tr::#m(#ids)),* ))
            }
        }
    };
    let body = |method: &str| match &input.data {
        Data::Struct(s) => { let a = arm(quote!(#name), &s.fields, method); quote!(match self { #a }) }
        Data::Enum(e) => {
            let arms = e.variants.iter().map(|v| { let vi = &v.ident; arm(quote!(#name::#vi), &v.fields, method) });
            quote!(match self { #(#arms),* })
        }
        Data::Union(_) => panic!("unions unsupported"),
    };
    let (bt, bi) = (body("to_static"), body("into_static"));
    quote! {
        impl #ig ::bounded_static::ToBoundedStatic for #name #tg #wc { type Static = #st; fn to_static(&self) -> Self::Static { #bt } }
        impl #ig ::bounded_static::IntoBoundedStatic for #name #tg #wc { type Static = #st; fn into_static(self) -> Self::Static { #bi } }
    }.into()
}
