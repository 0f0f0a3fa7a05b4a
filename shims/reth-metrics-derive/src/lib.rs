//! Stand-in for reth's `Metrics` derive: registers each field under `scope.field`.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields};

#[proc_macro_derive(Metrics, attributes(metrics, metric))]
pub fn derive(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let name = &input.ident;
    let mut scope = String::new();
    for a in &input.attrs {
        if a.path().is_ident("metrics") {
            let _ = a.parse_nested_meta(|m| {
                let v: syn::LitStr = m.value()?.parse()?;
                if m.path.is_ident("scope") {
                    scope = v.value();
                }
                Ok(())
            });
        }
    }
    let Data::Struct(s) = &input.data else { panic!("struct expected") };
    let Fields::Named(f) = &s.fields else { panic!("named fields expected") };
    let mut inits = vec![];
    let mut inits_l = vec![];
    for f in &f.named {
        let id = f.ident.as_ref().unwrap();
        let key = format!("{scope}.{id}");
        let syn::Type::Path(p) = &f.ty else { panic!("type") };
        let kind = p.path.segments.last().unwrap().ident.to_string();
        let mac = match kind.as_str() {
            "Counter" => quote!(counter),
            "Gauge" => quote!(gauge),
            "Histogram" => quote!(histogram),
            k => panic!("metric type {k}"),
        };
        inits.push(quote!(#id: ::reth_metrics::metrics::#mac!(#key)));
        inits_l.push(quote!(#id: ::reth_metrics::metrics::#mac!(#key, labels.clone())));
    }
    quote! {
        impl Default for #name {
            fn default() -> Self { Self { #(#inits),* } }
        }
        impl #name {
            #[allow(dead_code)]
            pub fn new_with_labels(labels: impl ::reth_metrics::metrics::IntoLabels + Clone) -> Self {
                let labels = labels.into_labels();
                let _ = &labels;
                Self { #(#inits_l),* }
            }
            #[allow(dead_code)]
            pub fn describe() {}
        }
        impl ::std::fmt::Debug for #name {
            fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                f.debug_struct(stringify!(#name)).finish()
            }
        }
    }
    .into()
}
