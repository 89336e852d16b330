from ray._runtime import ObjectRef
