from dataclasses import dataclass
from typing import Any, List, Optional

import pyarrow as pa

Block = pa.Table


@dataclass
class BlockMetadata:
  num_rows: Optional[int]
  size_bytes: Optional[int]
  schema: Any
  input_files: Optional[List[str]]
  exec_stats: Any
