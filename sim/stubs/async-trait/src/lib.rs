//! Offline stand-in for async-trait: async fn in traits as boxed, Send futures. Every elided
//! reference lifetime in the arguments gets its own named lifetime that outlives 'async_trait.
use proc_macro::TokenStream;
use proc_macro2::Span;
use quote::quote;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_macro_input, parse_quote, Block, FnArg, ImplItem, Item, Lifetime, Pat, ReturnType, Signature, TraitItem, TypeReference};

struct Elided { names: Vec<Lifetime>, used: Vec<Lifetime> }
impl VisitMut for Elided {
  fn visit_type_reference_mut(&mut self, ty: &mut TypeReference) {
    match &ty.lifetime {
      None => {
        let lt = Lifetime::new(&format!("'life{}", self.names.len()), Span::call_site());
        self.names.push(lt.clone());
        ty.lifetime = Some(lt);
      }
      Some(lt) if lt.ident == "_" => {
        let lt = Lifetime::new(&format!("'life{}", self.names.len()), Span::call_site());
        self.names.push(lt.clone());
        ty.lifetime = Some(lt);
      }
      Some(lt) => if lt.ident != "static" { self.used.push(lt.clone()) }
    }
    visit_mut::visit_type_reference_mut(self, ty);
  }
  fn visit_lifetime_mut(&mut self, lt: &mut Lifetime) {
    if lt.ident == "_" {
      let new = Lifetime::new(&format!("'life{}", self.names.len()), Span::call_site());
      self.names.push(new.clone());
      *lt = new;
    }
  }
}

fn transform(sig: &mut Signature, body: Option<&mut Block>) {
  if sig.asyncness.is_none() { return }
  sig.asyncness = None;
  let mut elided = Elided { names: vec![], used: vec![] };
  for arg in sig.inputs.iter_mut() {
    match arg {
      FnArg::Receiver(r) => {
        if r.colon_token.is_none() && r.reference.is_some() {
          let lt = Lifetime::new(&format!("'life{}", elided.names.len()), Span::call_site());
          elided.names.push(lt.clone());
          let m = r.mutability;
          *arg = parse_quote!(self: &#lt #m Self);
        } else {
          elided.visit_type_mut(&mut r.ty);
        }
      }
      FnArg::Typed(t) => {
        elided.visit_type_mut(&mut t.ty);
        if body.is_none() { if let Pat::Ident(p) = &mut *t.pat { p.mutability = None } }
      }
    }
  }
  for lt in &elided.names { sig.generics.params.push(parse_quote!(#lt)); }
  sig.generics.params.push(parse_quote!('async_trait));
  let names = &elided.names;
  let wh = sig.generics.make_where_clause();
  for lt in names { wh.predicates.push(parse_quote!(#lt: 'async_trait)); }
  wh.predicates.push(parse_quote!(Self: 'async_trait));
  let output = match &sig.output { ReturnType::Default => quote!(()), ReturnType::Type(_, t) => quote!(#t) };
  sig.output = parse_quote!(-> ::core::pin::Pin<::std::boxed::Box<dyn ::core::future::Future<Output = #output> + ::core::marker::Send + 'async_trait>>);
  // Generic parameters order: lifetimes first
  let params = std::mem::take(&mut sig.generics.params);
  let (lts, rest): (Vec<_>, Vec<_>) = params.into_iter().partition(|p| matches!(p, syn::GenericParam::Lifetime(_)));
  sig.generics.params = lts.into_iter().chain(rest).collect();
  if let Some(body) = body {
    let stmts = &body.stmts;
    let args: Vec<_> = sig.inputs.iter().filter_map(|a| match a {
      FnArg::Typed(t) => match &*t.pat { Pat::Ident(p) => Some(p.ident.clone()), _ => None },
      _ => None
    }).collect();
    *body = parse_quote!({
      ::std::boxed::Box::pin(async move {
        #(let _ = &#args;)*
        let __ret: #output = { #(#stmts)* };
        #[allow(unreachable_code)]
        __ret
      })
    });
  }
}

#[proc_macro_attribute]
pub fn async_trait(_: TokenStream, item: TokenStream) -> TokenStream {
  let mut item = parse_macro_input!(item as Item);
  match &mut item {
    Item::Trait(t) => for i in t.items.iter_mut() {
      if let TraitItem::Fn(f) = i { transform(&mut f.sig, f.default.as_mut()) }
    },
    Item::Impl(im) => for i in im.items.iter_mut() {
      if let ImplItem::Fn(f) = i { let mut b = f.block.clone(); transform(&mut f.sig, Some(&mut b)); f.block = b; }
    },
    _ => panic!("async_trait: expected a trait or an impl")
  }
  quote!(#[allow(clippy::all, unused_variables)] #item).into()
}
