from ray._runtime import (ObjectRef, RayError, RayTaskError, WorkerCrash, get,
                          init, is_initialized, kill, put, remote, shutdown,
                          wait)
from ray import data, types, exceptions
