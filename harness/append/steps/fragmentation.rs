
#[allow(dead_code, unused)]
pub(crate) mod vk_hook {
    use super::*;
    /// The args of the next frame, its flags, and the args which are left.
    pub(crate) fn step(args: Vec<Bytes>, fields: usize) -> (CallArgs, Flags, Vec<Bytes>) {
        let mut f = Fragmenter::new(String::new(), MessageArgs::new(ArgSchemeValue::Raw, args));
        let a = f.next_frame_args(calculate_payload_limit(fields));
        let flags = f.current_frame_flag();
        (a, flags, f.args_fragmenter.args.into_iter().collect())
    }
}
