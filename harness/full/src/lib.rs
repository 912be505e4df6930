//! Shared by the monitors of the parts that need plane geometry: reference readers of the file formats
//! and a reference view of regions and meshes.
pub mod bbnd;
pub mod bmsh;
pub mod mesh;
pub mod region;
pub mod text;
