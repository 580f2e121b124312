
#[allow(dead_code, unused)]
pub(crate) mod vk_hook {
    use super::*;
    /// As if any number of messages had been sent before.
    pub(crate) fn skip_to(c: &Connection, id: u32) {
        c.next_message_id.store(id, Ordering::Relaxed);
    }
}
