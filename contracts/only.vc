## what an update of one field leaves alone
@mod model::shapes::service
verus!{
pub broadcast proof fn lemma_service_operations(a: Service, b: Service) requires #[trigger] Service::only_operations(a, b) ensures a.sp_version() == b.sp_version(), a.sp_resources() == b.sp_resources(), a.sp_renames() == b.sp_renames() { }
pub broadcast proof fn lemma_service_resources(a: Service, b: Service) requires #[trigger] Service::only_resources(a, b) ensures a.sp_version() == b.sp_version(), a.sp_operations() == b.sp_operations(), a.sp_renames() == b.sp_renames() { }
pub broadcast proof fn lemma_service_renames(a: Service, b: Service) requires #[trigger] Service::only_renames(a, b) ensures a.sp_version() == b.sp_version(), a.sp_operations() == b.sp_operations(), a.sp_resources() == b.sp_resources() { }
pub broadcast proof fn lemma_operation_input(a: Operation, b: Operation) requires #[trigger] Operation::only_input(a, b) ensures a.sp_output() == b.sp_output(), a.sp_errors() == b.sp_errors() { }
pub broadcast proof fn lemma_operation_output(a: Operation, b: Operation) requires #[trigger] Operation::only_output(a, b) ensures a.sp_input() == b.sp_input(), a.sp_errors() == b.sp_errors() { }
pub broadcast proof fn lemma_operation_errors(a: Operation, b: Operation) requires #[trigger] Operation::only_errors(a, b) ensures a.sp_input() == b.sp_input(), a.sp_output() == b.sp_output() { }
pub broadcast proof fn lemma_resource_identifiers(a: Resource, b: Resource) requires #[trigger] Resource::only_identifiers(a, b) ensures a.sp_create() == b.sp_create(), a.sp_put() == b.sp_put(), a.sp_read() == b.sp_read(), a.sp_update() == b.sp_update(), a.sp_delete() == b.sp_delete(), a.sp_list() == b.sp_list(), a.sp_operations() == b.sp_operations(), a.sp_collection_operations() == b.sp_collection_operations(), a.sp_resources() == b.sp_resources() { }
pub broadcast proof fn lemma_resource_create(a: Resource, b: Resource) requires #[trigger] Resource::only_create(a, b) ensures a.sp_identifiers() == b.sp_identifiers(), a.sp_put() == b.sp_put(), a.sp_read() == b.sp_read(), a.sp_update() == b.sp_update(), a.sp_delete() == b.sp_delete(), a.sp_list() == b.sp_list(), a.sp_operations() == b.sp_operations(), a.sp_collection_operations() == b.sp_collection_operations(), a.sp_resources() == b.sp_resources() { }
pub broadcast proof fn lemma_resource_put(a: Resource, b: Resource) requires #[trigger] Resource::only_put(a, b) ensures a.sp_identifiers() == b.sp_identifiers(), a.sp_create() == b.sp_create(), a.sp_read() == b.sp_read(), a.sp_update() == b.sp_update(), a.sp_delete() == b.sp_delete(), a.sp_list() == b.sp_list(), a.sp_operations() == b.sp_operations(), a.sp_collection_operations() == b.sp_collection_operations(), a.sp_resources() == b.sp_resources() { }
pub broadcast proof fn lemma_resource_read(a: Resource, b: Resource) requires #[trigger] Resource::only_read(a, b) ensures a.sp_identifiers() == b.sp_identifiers(), a.sp_create() == b.sp_create(), a.sp_put() == b.sp_put(), a.sp_update() == b.sp_update(), a.sp_delete() == b.sp_delete(), a.sp_list() == b.sp_list(), a.sp_operations() == b.sp_operations(), a.sp_collection_operations() == b.sp_collection_operations(), a.sp_resources() == b.sp_resources() { }
pub broadcast proof fn lemma_resource_update(a: Resource, b: Resource) requires #[trigger] Resource::only_update(a, b) ensures a.sp_identifiers() == b.sp_identifiers(), a.sp_create() == b.sp_create(), a.sp_put() == b.sp_put(), a.sp_read() == b.sp_read(), a.sp_delete() == b.sp_delete(), a.sp_list() == b.sp_list(), a.sp_operations() == b.sp_operations(), a.sp_collection_operations() == b.sp_collection_operations(), a.sp_resources() == b.sp_resources() { }
pub broadcast proof fn lemma_resource_delete(a: Resource, b: Resource) requires #[trigger] Resource::only_delete(a, b) ensures a.sp_identifiers() == b.sp_identifiers(), a.sp_create() == b.sp_create(), a.sp_put() == b.sp_put(), a.sp_read() == b.sp_read(), a.sp_update() == b.sp_update(), a.sp_list() == b.sp_list(), a.sp_operations() == b.sp_operations(), a.sp_collection_operations() == b.sp_collection_operations(), a.sp_resources() == b.sp_resources() { }
pub broadcast proof fn lemma_resource_list(a: Resource, b: Resource) requires #[trigger] Resource::only_list(a, b) ensures a.sp_identifiers() == b.sp_identifiers(), a.sp_create() == b.sp_create(), a.sp_put() == b.sp_put(), a.sp_read() == b.sp_read(), a.sp_update() == b.sp_update(), a.sp_delete() == b.sp_delete(), a.sp_operations() == b.sp_operations(), a.sp_collection_operations() == b.sp_collection_operations(), a.sp_resources() == b.sp_resources() { }
pub broadcast proof fn lemma_resource_operations(a: Resource, b: Resource) requires #[trigger] Resource::only_operations(a, b) ensures a.sp_identifiers() == b.sp_identifiers(), a.sp_create() == b.sp_create(), a.sp_put() == b.sp_put(), a.sp_read() == b.sp_read(), a.sp_update() == b.sp_update(), a.sp_delete() == b.sp_delete(), a.sp_list() == b.sp_list(), a.sp_collection_operations() == b.sp_collection_operations(), a.sp_resources() == b.sp_resources() { }
pub broadcast proof fn lemma_resource_collection_operations(a: Resource, b: Resource) requires #[trigger] Resource::only_collection_operations(a, b) ensures a.sp_identifiers() == b.sp_identifiers(), a.sp_create() == b.sp_create(), a.sp_put() == b.sp_put(), a.sp_read() == b.sp_read(), a.sp_update() == b.sp_update(), a.sp_delete() == b.sp_delete(), a.sp_list() == b.sp_list(), a.sp_operations() == b.sp_operations(), a.sp_resources() == b.sp_resources() { }
pub broadcast proof fn lemma_resource_resources(a: Resource, b: Resource) requires #[trigger] Resource::only_resources(a, b) ensures a.sp_identifiers() == b.sp_identifiers(), a.sp_create() == b.sp_create(), a.sp_put() == b.sp_put(), a.sp_read() == b.sp_read(), a.sp_update() == b.sp_update(), a.sp_delete() == b.sp_delete(), a.sp_list() == b.sp_list(), a.sp_operations() == b.sp_operations(), a.sp_collection_operations() == b.sp_collection_operations() { }
pub broadcast group group_only { lemma_service_operations, lemma_service_resources, lemma_service_renames, lemma_operation_input, lemma_operation_output, lemma_operation_errors, lemma_resource_identifiers, lemma_resource_create, lemma_resource_put, lemma_resource_read, lemma_resource_update, lemma_resource_delete, lemma_resource_list, lemma_resource_operations, lemma_resource_collection_operations, lemma_resource_resources }
}
