//! Seams below the standard library: randomness, host name and DNS are simulated.
use crate::world::{try_with, World};
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_uint, c_void};

/// Every run gets the same "random" bytes (hash map keys, executor seeds).
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, _flags: c_uint) -> isize {
    let b = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    for (i, x) in b.iter_mut().enumerate() {
        *x = (i as u8).wrapping_mul(37) ^ 0x5a;
    }
    len as isize
}

#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, len: usize) -> c_int {
    getrandom(buf, len, 0);
    0
}

#[no_mangle]
pub unsafe extern "C" fn gethostname(buf: *mut c_char, len: usize) -> c_int {
    let name = b"simulated-host\0";
    let n = name.len().min(len);
    std::ptr::copy_nonoverlapping(name.as_ptr() as *const c_char, buf, n);
    0
}

#[repr(C)]
struct Node {
    info: libc::addrinfo,
    sa: libc::sockaddr_in,
}

#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(
    node: *const c_char,
    _service: *const c_char,
    _hints: *const libc::addrinfo,
    res: *mut *mut libc::addrinfo,
) -> c_int {
    if node.is_null() {
        return libc::EAI_NONAME;
    }
    let name = CStr::from_ptr(node).to_string_lossy().to_string();
    let ips: Option<Vec<[u8; 4]>> = try_with(|w| {
        w.resolved.push((w.now, name.clone()));
        w.stat("dns_lookups");
        w.trace(60, || format!("name {name:?} is looked up"));
        let p = w.plan.clone();
        p.cfg.hosts.iter().find(|h| h.name == name).map(|h| {
            h.addrs
                .iter()
                .map(|s| match World::addr(&p.cfg, *s).ip() {
                    std::net::IpAddr::V4(ip) => ip.octets(),
                    _ => unreachable!(),
                })
                .collect()
        })
    })
    .flatten();
    let Some(ips) = ips else { return libc::EAI_NONAME };
    let mut head: *mut libc::addrinfo = std::ptr::null_mut();
    for ip in ips.iter().rev() {
        let mut n: Box<Node> = Box::new(std::mem::zeroed());
        n.sa.sin_family = libc::AF_INET as _;
        n.sa.sin_addr.s_addr = u32::from_ne_bytes(*ip);
        n.info.ai_family = libc::AF_INET;
        n.info.ai_socktype = libc::SOCK_STREAM;
        n.info.ai_addrlen = std::mem::size_of::<libc::sockaddr_in>() as _;
        n.info.ai_next = head;
        let p = Box::into_raw(n);
        (*p).info.ai_addr = &mut (*p).sa as *mut _ as *mut libc::sockaddr;
        head = p as *mut libc::addrinfo;
    }
    *res = head;
    0
}

#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(mut p: *mut libc::addrinfo) {
    while !p.is_null() {
        let next = (*p).ai_next;
        drop(Box::from_raw(p as *mut Node));
        p = next;
    }
}
