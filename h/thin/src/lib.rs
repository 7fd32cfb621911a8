//! `progenitor_impl` as its macro sees it, with the generated code, the
//! settings and the requests made of the type generator as string constants.
use proc_macro2::TokenStream;
use quote::quote;
pub use real::*;

pub struct Generator(real::Generator);

impl Default for Generator {
    fn default() -> Self {
        Generator(Default::default())
    }
}
impl std::ops::Deref for Generator {
    type Target = real::Generator;
    fn deref(&self) -> &real::Generator {
        &self.0
    }
}
impl std::ops::DerefMut for Generator {
    fn deref_mut(&mut self) -> &mut real::Generator {
        &mut self.0
    }
}
impl Generator {
    pub fn new(settings: &GenerationSettings) -> Self {
        Generator(real::Generator::new(settings))
    }
    pub fn generate_tokens(&mut self, spec: &openapiv3::OpenAPI) -> Result<TokenStream> {
        let code = self.0.generate_tokens(spec)?.to_string();
        let ts = self.0.get_type_space();
        let settings = format!("{:?}", ts.settings());
        let asked = format!("{:?}", ts.asked());
        Ok(quote! {
            pub const CODE: [&str; 3] = [#code, #settings, #asked];
            // what the code proper needs to find
            const _: Option<progenitor_client::Error<()>> = None;
        })
    }
}
