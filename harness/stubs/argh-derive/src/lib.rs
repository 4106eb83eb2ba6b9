use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Expr, LitStr};

#[proc_macro_derive(FromArgs, attributes(argh))]
pub fn from_args(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let Data::Struct(s) = &input.data else { panic!("struct expected") };
    let fields = s.fields.iter().map(|f| {
        let id = f.ident.as_ref().unwrap();
        let opt = id.to_string().replace('_', "-");
        let mut default = quote!(panic!("missing option"));
        for a in f.attrs.iter().filter(|a| a.path().is_ident("argh")) {
            a.parse_nested_meta(|m| {
                if m.path.is_ident("default") {
                    let e: Expr = m.value()?.parse::<LitStr>()?.parse()?;
                    default = quote!(#e);
                }
                Ok(())
            }).unwrap();
        }
        quote!(#id: match get(#opt) { Some(v) => v.parse().unwrap(), None => #default })
    });
    quote!(impl ::argh::FromArgs for #name { fn from_map(get: &mut dyn FnMut(&str) -> Option<String>) -> Self { Self { #(#fields),* } } }).into()
}
