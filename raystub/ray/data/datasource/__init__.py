from ray.data.datasource.datasource import (Datasource, Reader, ReadTask,
                                            WriteResult)
