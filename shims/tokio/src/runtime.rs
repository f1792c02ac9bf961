pub struct Runtime; pub struct Handle;
#[derive(Debug)] pub struct TryCurrentError;
impl Clone for Handle { fn clone(&self) -> Handle { Handle } }
impl Handle { pub fn try_current() -> Result<Handle, TryCurrentError> { Ok(Handle) } pub fn spawn<F: std::future::Future + Send + 'static>(&self, f: F) -> crate::task::JoinHandle<F::Output> where F::Output: Send + 'static { crate::task::spawn(f) } pub fn current() -> Handle { Handle } pub fn block_on<F: std::future::Future>(&self, f: F) -> F::Output { crate::rt::block_on(f).unwrap() } }
