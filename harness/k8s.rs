//! Kubernetes discovery: the addresses of the pods that run a node.
use super::common::*;
use crate::coerce_k8s::config::{Address, KubernetesDiscoveryConfig};
use crate::coerce_k8s::KubernetesDiscovery;
use k8s_openapi::api::core::v1::{Container, ContainerPort, Pod, PodSpec, PodStatus};

fn opt(some: bool, s: &str) -> Option<String> { if some { Some(s.to_string()) } else { None } }
fn port(named: u8, n: i32) -> ContainerPort { ContainerPort { container_port: n, name: match named { 0 => None, 1 => Some("http".into()), _ => Some("c".into()) }, ..Default::default() } }
/// (port name, number) of each port of a container, or no list of ports at all
fn container(out: &mut Vec<i32>, base: i32) -> Container {
    let ports = match nd::choose(4) {
        0 => None,
        1 => Some(vec![]),
        2 => { let k = nd::choose(3); if k == 2 { out.push(base); } Some(vec![port(k, base)]) }
        _ => { out.push(base + 1); Some(vec![port(nd::choose(2), base), port(2, base + 1)]) }
    };
    Container { name: "x".into(), ports, ..Default::default() }
}
fn discovery(n: usize, containers: u8) {
    let by_ip = nd::flip();
    let mut want: Vec<String> = vec![];
    let mut skipped = false;
    let mut i = 0;
    while i < n {
        let ours = i > 0 || nd::flip();
        let mut ports = vec![];
        let mut cs = vec![];
        let k = 1 + nd::choose(containers);
        let mut j = 0;
        while j < k { cs.push(container(&mut ports, 10 * (i as i32 + 1) + 3 * j as i32)); j += 1; }
        let (ip, host, sub) = (nd::flip(), nd::flip(), nd::flip());
        let addr = [["1.1", "h1", "h1.s1"], ["1.2", "h2", "h2.s2"]][i];
        let spec = PodSpec { hostname: opt(host, addr[1]), subdomain: opt(sub, &addr[2][3..]), containers: cs, ..Default::default() };
        let status = PodStatus { pod_ip: opt(ip, addr[0]), ..Default::default() };
        // (a pod that has just been made may not have a status yet)
        let young = !ip && !host && nd::flip();
        unsafe { kube::PODS.push((if ours { "app=c".to_string() } else { "app=other".to_string() }, Pod { spec: Some(spec), status: if young { None } else { Some(status) }, ..Default::default() })); }
        let a = if by_ip { if ip { Some(addr[0]) } else { None } } else if host { Some(if sub { addr[2] } else { addr[1] }) } else { None };
        match a { Some(a) if ours => for p in ports { want.push(format!("{}:{}", a, p)); }, _ => skipped = true }
        i += 1;
    }
    let c = KubernetesDiscoveryConfig { pod_selection_label: Some("app=c".to_string()), coerce_remote_port_name: Some("c".to_string()), cluster_node_address: if by_ip { Address::PodIp } else { Address::Hostname } };
    let got = drive(KubernetesDiscovery::discover(c)).expect("discovery hangs").unwrap_or_default();
    let listed = want.iter().all(|w| got.iter().filter(|g| *g == w).count() == 1);
    assert!(listed && got.len() == want.len(), "the addresses found are not those of the pods that run a node");
    nd::reach!(by_ip && want.len() > 1, "several, by address");
    nd::reach!(!by_ip && want.len() > 1, "several, by name");
    nd::reach!(skipped && want.len() > 0, "one of them not there yet");
}
#[no_mangle] pub extern "C" fn h_k8s() { discovery(2, 1) }
#[no_mangle] pub extern "C" fn h_k8s_sidecar() { discovery(1, 2) }
