//! Offline stand-in for serde_with: the skip_serializing_none attribute.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, parse_quote, Fields, ItemStruct, Type};

fn is_option(ty: &Type) -> bool {
  matches!(ty, Type::Path(p) if p.path.segments.last().map(|s| s.ident == "Option").unwrap_or(false))
}

#[proc_macro_attribute]
pub fn skip_serializing_none(_: TokenStream, item: TokenStream) -> TokenStream {
  let mut item = parse_macro_input!(item as ItemStruct);
  if let Fields::Named(fields) = &mut item.fields {
    for field in fields.named.iter_mut() {
      if is_option(&field.ty) {
        let present = field.attrs.iter().any(|a| quote!(#a).to_string().contains("skip_serializing_if"));
        if !present {
          field.attrs.push(parse_quote!(#[serde(skip_serializing_if = "Option::is_none")]));
        }
      }
    }
  }
  quote!(#item).into()
}
