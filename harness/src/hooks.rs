// Included in binate as `binate::verif`.
use crate::frame::codec::SetupFrame;
use bytes::Bytes;

/// The MIME types, keepalive interval and max lifetime of a SETUP frame.
pub fn setup_fields(f: &SetupFrame) -> (&Bytes, &Bytes, u32, u32) {
    (&f.metadata_mimetype, &f.data_mimetype, f.keepalive_interval, f.keepalive_timeout)
}

/// The list of byte buffers that reassembles fragmented payloads.
pub struct List(crate::connection::BufList<Bytes>);

impl List {
    pub fn new() -> List {
        List(crate::connection::BufList::new())
    }
    pub fn push(&mut self, b: Bytes) {
        self.0.push(b)
    }
    pub fn bufs(&self) -> usize {
        self.0.len()
    }
    pub fn reassemble(self) -> Result<crate::Payload, crate::frame::DecodeError> {
        std::convert::TryInto::try_into(self.0)
    }
}

impl bytes::Buf for List {
    fn remaining(&self) -> usize {
        self.0.remaining()
    }
    fn chunk(&self) -> &[u8] {
        self.0.chunk()
    }
    fn advance(&mut self, cnt: usize) {
        self.0.advance(cnt)
    }
    fn chunks_vectored<'t>(&'t self, dst: &mut [std::io::IoSlice<'t>]) -> usize {
        self.0.chunks_vectored(dst)
    }
    fn copy_to_bytes(&mut self, len: usize) -> Bytes {
        self.0.copy_to_bytes(len)
    }
}

/// The requester.
pub struct Machine(crate::connection::RSocketMachine);

impl Machine {
    pub async fn new(
        server: bool,
        connection: impl crate::connection::DuplexConnection + 'static,
        keepalive_timeout: std::time::Duration,
    ) -> Machine {
        use crate::connection::{RSocketMachine, Role};
        let role = if server { Role::Server } else { Role::Client };
        Machine(RSocketMachine::new(role, connection, keepalive_timeout).await)
    }
    pub fn set_chunk_size(&mut self, size: Option<usize>) {
        self.0.verif_set_chunk_payload(size)
    }
    pub fn close(&mut self) {
        self.0.close()
    }
    pub fn requester(&self) -> &dyn crate::RSocket {
        &self.0
    }
}

/// A provider of stream IDs whose counter stands at `init`.
pub fn stream_ids(init: i32) -> crate::connection::StreamIdProvider {
    crate::connection::StreamIdProvider::verif_new(init)
}

/// An error of the given kind: 0 decode, 1 I/O, 2.. protocol errors in the order of their codes.
pub fn error(kind: usize, source: Option<&'static str>) -> crate::Error {
    use crate::error::{Error, Kind};
    let kind = match kind {
        0 => Kind::Decode(crate::frame::DecodeError::InComplete),
        1 => Kind::Io,
        2 => Kind::InvalidSetup,
        3 => Kind::UnsupportedSetup,
        4 => Kind::RejectedSetup,
        5 => Kind::RejectedResume,
        6 => Kind::ConnectionError,
        7 => Kind::ConnectionClose,
        8 => Kind::ApplicationError,
        9 => Kind::Rejected,
        10 => Kind::Canceled,
        _ => Kind::Invalid,
    };
    Error::new(kind, source)
}
