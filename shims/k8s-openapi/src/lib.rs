pub mod api { pub mod core { pub mod v1 {
    use std::collections::BTreeMap;
    #[derive(Clone, Debug, Default, PartialEq)] pub struct ObjectMeta { pub name: Option<String>, pub namespace: Option<String>, pub labels: Option<BTreeMap<String, String>>, pub deletion_timestamp: Option<String> }
    #[derive(Clone, Debug, Default, PartialEq)] pub struct ContainerPort { pub container_port: i32, pub host_ip: Option<String>, pub host_port: Option<i32>, pub name: Option<String>, pub protocol: Option<String> }
    #[derive(Clone, Debug, Default, PartialEq)] pub struct Container { pub name: String, pub image: Option<String>, pub ports: Option<Vec<ContainerPort>> }
    #[derive(Clone, Debug, Default, PartialEq)] pub struct PodSpec { pub hostname: Option<String>, pub subdomain: Option<String>, pub containers: Vec<Container>, pub init_containers: Option<Vec<Container>>, pub node_name: Option<String>, pub host_network: Option<bool> }
    #[derive(Clone, Debug, Default, PartialEq)] pub struct PodIP { pub ip: Option<String> }
    #[derive(Clone, Debug, Default, PartialEq)] pub struct PodStatus { pub pod_ip: Option<String>, pub pod_ips: Option<Vec<PodIP>>, pub host_ip: Option<String>, pub phase: Option<String>, pub message: Option<String>, pub reason: Option<String> }
    #[derive(Clone, Debug, Default, PartialEq)] pub struct Pod { pub metadata: ObjectMeta, pub spec: Option<PodSpec>, pub status: Option<PodStatus> }
} } }
pub mod apimachinery { pub mod pkg { pub mod apis { pub mod meta { pub mod v1 { pub use crate::api::core::v1::ObjectMeta; } } } } }
