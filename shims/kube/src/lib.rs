//! An API server that knows a list of pods, each with one label.
use k8s_openapi::api::core::v1::Pod;
use std::fmt::{Debug, Display, Formatter};
pub static mut PODS: Vec<(String, Pod)> = Vec::new();
pub static mut DOWN: bool = false;
#[derive(Debug)] pub struct Error;
impl Display for Error { fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result { f.write_str("kube") } }
impl std::error::Error for Error {}
pub type Result<T, E = Error> = std::result::Result<T, E>;
#[derive(Clone)] pub struct Client;
impl Client { pub async fn try_default() -> Result<Client> { tokio::rt::yield_now().await; Ok(Client) } }
pub use api::Api;
pub mod api {
    use super::*;
    #[derive(Clone, Debug, Default)] pub struct ListParams { pub label_selector: Option<String>, pub field_selector: Option<String>, pub timeout: Option<u32>, pub limit: Option<u32>, pub continue_token: Option<String> }
    impl ListParams { pub fn labels(mut self, l: &str) -> Self { self.label_selector = Some(l.to_string()); self } }
    #[derive(Clone, Debug, Default)] pub struct ListMeta { pub continue_: Option<String> }
    #[derive(Clone, Debug)] pub struct ObjectList<T: Clone> { pub metadata: ListMeta, pub items: Vec<T> }
    impl<T: Clone> ObjectList<T> { pub fn iter(&self) -> std::slice::Iter<'_, T> { self.items.iter() } }
    impl<T: Clone> IntoIterator for ObjectList<T> { type Item = T; type IntoIter = std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.items.into_iter() } }
    #[derive(Clone)] pub struct Api<T>(std::marker::PhantomData<T>);
    impl<T> Api<T> { pub fn default_namespaced(_: Client) -> Self { Api(std::marker::PhantomData) } pub fn namespaced(_: Client, _: &str) -> Self { Api(std::marker::PhantomData) } pub fn all(_: Client) -> Self { Api(std::marker::PhantomData) } }
    impl Api<Pod> {
        pub async fn list(&self, p: &ListParams) -> Result<ObjectList<Pod>> {
            tokio::rt::yield_now().await;
            unsafe {
                if DOWN { return Err(Error); }
                Ok(ObjectList { metadata: ListMeta::default(), items: PODS.iter().filter(|x| p.label_selector.as_ref().map_or(true, |l| *l == x.0)).map(|x| x.1.clone()).collect() })
            }
        }
    }
}
