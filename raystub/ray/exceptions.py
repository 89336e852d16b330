from ray._runtime import RayError, RayTaskError, WorkerCrash
RayActorError = WorkerCrash
