
#[allow(dead_code, unused)]
pub(crate) mod vk_hook {
    use super::*;
    /// As if any number of messages had been sent over the connection to a host.
    pub(crate) async fn skip_to(s: &SubChannel, host: SocketAddr, id: u32) -> bool {
        let pool = match s.connection_pools.get(host).await {
            Ok(p) => p,
            Err(_) => return false,
        };
        let c = pool.get().await;
        match c {
            Ok(c) => {
                crate::connection::vk_hook::skip_to(&c, id);
                true
            }
            Err(_) => false,
        }
    }
}
