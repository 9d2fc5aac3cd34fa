"""refactors.py [NAMES]: behaviour-preserving edits; every check must stay quiet on them.  Runs on scratch copies."""
import os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V = "src/valori/"
R = [
("hnsw-dist-helper", V + "indices/hnsw.py", [("""        if self.metric == "cosine":
            # Cosine distance
            dot_product = np.dot(vec1, vec2)
            norm1 = np.linalg.norm(vec1)
            norm2 = np.linalg.norm(vec2)
            if norm1 == 0 or norm2 == 0:
                return 1.0
            similarity = dot_product / (norm1 * norm2)
            return 1 - similarity
""", """        if self.metric == "cosine":
            return self._cosine(vec1, vec2)
"""), ("""    def _compute_distance(self""", """    @staticmethod
    def _cosine(a, b):
        na, nb = np.linalg.norm(a), np.linalg.norm(b)
        return 1.0 if 0 in (na, nb) else 1 - np.dot(a, b) / (na * nb)

    def _compute_distance(self""")], "I02 I03 I04 I08"),
("hnsw-results-comp", V + "indices/hnsw.py", [("""            results = []
            sb = self.storage_backend
            if sb is None:
                raise ValoriIndexError("Index storage backend not configured")

            for node_id, distance in top_k:
                _, metadata = sb.retrieve_vector(node_id)
                results.append(
                    {
                        "id": node_id,
                        "distance": distance,
                        "metadata": metadata,
                    }
                )

            return results
""", """            sb = self.storage_backend
            if sb is None:
                raise ValoriIndexError("Index storage backend not configured")

            return [
                {
                    "id": node_id,
                    "distance": distance,
                    "metadata": sb.retrieve_vector(node_id)[1],
                }
                for node_id, distance in top_k
            ]
""")], "I02 I03 I04"),
("hnsw-connect-helper", V + "indices/hnsw.py", [("""                for neighbor_id in neighbors:
                    if neighbor_id != vector_id:
                        # Bidirectional connection
                        if vector_id not in self.levels[l][neighbor_id]:
                            self.levels[l][neighbor_id].append(vector_id)
                        if neighbor_id not in self.levels[l][vector_id]:
                            self.levels[l][vector_id].append(neighbor_id)
""", """                for neighbor_id in neighbors:
                    self._connect(self.levels[l], vector_id, neighbor_id)
"""), ("""    def _remove_vector_internal(""", """    def _connect(self, graph, a, b):
        if a == b:
            return
        if b not in graph[a]:
            graph[a].append(b)
        if a not in graph[b]:
            graph[b].append(a)

    def _remove_vector_internal(""")], "I02 I03 I04 I08"),
("hnsw-remove-while", V + "indices/hnsw.py", [("""        for level in self.levels:
            if vector_id in level:
                # Remove connections
                for neighbor_id in level[vector_id]:
                    if neighbor_id in level and vector_id in level[neighbor_id]:
                        level[neighbor_id].remove(vector_id)

                del level[vector_id]
""", """        for level in self.levels:
            neighbors = level.pop(vector_id, None)
            if neighbors is None:
                continue
            for neighbor_id in neighbors:
                links = level.get(neighbor_id)
                if links is not None and vector_id in links:
                    links.remove(vector_id)
""")], "I02 I03 I04"),
("ivf-sorted-min", V + "indices/ivf.py", [("""        for i, centroid in enumerate(self.centroids):
            distance = self._compute_distance(vector, centroid)
            if distance < min_distance:
                min_distance = distance
                best_cluster = i

        # Add to cluster
        if best_cluster not in self.clusters:
            self.clusters[best_cluster] = []
        self.clusters[best_cluster].append(vector_id)
""", """        distances = [self._compute_distance(vector, c) for c in self.centroids]
        for i in range(len(distances)):
            if distances[i] < min_distance:
                best_cluster, min_distance = i, distances[i]

        # Add to cluster
        self.clusters.setdefault(best_cluster, []).append(vector_id)
""")], "I02 I05 I08"),
("ivf-load-helper", V + "indices/ivf.py", [("""            for vector_id in self.vector_ids:
                if vector_id in self.vectors_cache:
                    vector = self.vectors_cache[vector_id]
                else:
                    sb = self.storage_backend
                    if sb is None:
                        raise ValoriIndexError("Index storage backend not configured")
                    result = sb.retrieve_vector(vector_id)
                    if result is None:
                        continue
                    vector, _ = result
                    self.vectors_cache[vector_id] = vector

                vectors.append(vector)
                valid_ids.append(vector_id)
""", """            for vector_id in self.vector_ids:
                vector = self._load(vector_id)
                if vector is not None:
                    vectors.append(vector)
                    valid_ids.append(vector_id)
"""), ("""    def _add_to_cluster(""", """    def _load(self, vector_id):
        if vector_id not in self.vectors_cache:
            sb = self.storage_backend
            if sb is None:
                raise ValoriIndexError("Index storage backend not configured")
            found = sb.retrieve_vector(vector_id)
            if found is None:
                return None
            self.vectors_cache[vector_id] = found[0]
        return self.vectors_cache[vector_id]

    def _add_to_cluster(""")], "I02 I05 I08"),
("ivf-delete-helper", V + "indices/ivf.py", [("""            for vector_id in ids:
                sb = self.storage_backend
                if sb is None:
                    raise ValoriIndexError("Index storage backend not configured")

                # Remove from storage
                if not sb.delete_vector(vector_id):
                    success = False

                # Remove from index
                if vector_id in self.vector_ids:
                    self.vector_ids.remove(vector_id)

                # Remove from cache
                self.vectors_cache.pop(vector_id, None)

                # Remove from clusters
                for cluster_id, vector_list in self.clusters.items():
                    if vector_id in vector_list:
                        vector_list.remove(vector_id)
""", """            for vector_id in ids:
                sb = self.storage_backend
                if sb is None:
                    raise ValoriIndexError("Index storage backend not configured")

                success = sb.delete_vector(vector_id) and success
                self._forget(vector_id)
"""), ("""    def _add_to_cluster(""", """    def _forget(self, vector_id):
        for members in self.clusters.values():
            if vector_id in members:
                members.remove(vector_id)
        if vector_id in self.vectors_cache:
            del self.vectors_cache[vector_id]
        if vector_id in self.vector_ids:
            self.vector_ids.remove(vector_id)

    def _add_to_cluster(""")], "I02 I05"),
("lsh-unlist-helper", V + "indices/lsh.py", [("""                hash_codes = self._hash_vector(vector)

                for table_idx, hash_code in enumerate(hash_codes):
                    if hash_code in self.hash_tables[table_idx]:
                        try:
                            self.hash_tables[table_idx][hash_code].remove(vector_id)
                        except ValueError:
                            pass  # Already removed
""", """                self._unlist(vector_id, vector)
"""), ("""            for table_idx, hash_code in enumerate(old_hashes):
                if hash_code in self.hash_tables[table_idx]:
                    try:
                        self.hash_tables[table_idx][hash_code].remove(vector_id)
                    except ValueError:
                        pass
""", """            self._unlist(vector_id, old_vector)
"""), ("""            old_hashes = self._hash_vector(old_vector)
""", ""), ("""    def clear(self)""", """    def _unlist(self, vector_id, vector):
        for table, code in zip(self.hash_tables, self._hash_vector(vector)):
            if code in table and vector_id in table[code]:
                table[code].remove(vector_id)

    def clear(self)""")], "I06 I08"),
("lsh-search-comp", V + "indices/lsh.py", [("""        for candidate_id in candidates:
            if candidate_id < len(self.vectors):
                vector = self.vectors[candidate_id]
                if vector is None:
                    continue
                distance = self._compute_distance(query_vector, vector)

                # Apply threshold filter
                if distance >= threshold:
                    results.append(
                        {
                            "id": candidate_id,
                            "distance": float(distance),
                            "metadata": self.metadata[candidate_id],
                        }
                    )
""", """        for candidate_id in candidates:
            if candidate_id >= len(self.vectors) or self.vectors[candidate_id] is None:
                continue
            similarity = float(
                self._compute_distance(query_vector, self.vectors[candidate_id])
            )
            if similarity < threshold:
                continue
            entry = {"id": candidate_id, "metadata": self.metadata[candidate_id]}
            entry["distance"] = similarity
            results.append(entry)
""")], "I06"),
("lsh-hash-comp", V + "indices/lsh.py", [("""            hash_string = "".join(["1" if bit else "0" for bit in hash_bits])
            hash_codes.append(hash_string)
""", """            hash_codes.append("".join("1" if b else "0" for b in hash_bits))
""")], "I06 I08"),
("annoy-search-early", V + "indices/annoy.py", [("""            if (
                neighbor_id < len(self.vectors)
                and self.vectors[neighbor_id] is not None
            ):
                # Convert distance to similarity based on metric
                similarity = self._distance_to_similarity(distance)

                results.append(
                    {
                        "id": neighbor_id,
                        "distance": similarity,
                        "metadata": self.metadata[neighbor_id],
                    }
                )
""", """            if neighbor_id >= len(self.vectors):
                continue
            if self.vectors[neighbor_id] is None:
                continue
            results.append(
                dict(
                    id=neighbor_id,
                    distance=self._distance_to_similarity(distance),
                    metadata=self.metadata[neighbor_id],
                )
            )
""")], "I07 I08"),
("flat-load-helper", V + "indices/flat.py", [("""            for vector_id in self.vector_ids:
                if vector_id in self.vector_cache:
                    vector = self.vector_cache[vector_id]
                else:
                    result = sb.retrieve_vector(vector_id)
                    if result is None:
                        continue
                    vector, _ = result
                    self.vector_cache[vector_id] = vector

                vectors.append(vector)
                valid_ids.append(vector_id)
""", """            for vector_id in self.vector_ids:
                vector = self._cached(vector_id, sb)
                if vector is None:
                    continue
                valid_ids.append(vector_id)
                vectors.append(vector)
"""), ("""    def delete(self""", """    def _cached(self, vector_id, sb):
        vector = self.vector_cache.get(vector_id)
        if vector is None:
            result = sb.retrieve_vector(vector_id)
            if result is not None:
                vector = result[0]
                self.vector_cache[vector_id] = vector
        return vector

    def delete(self""")], "I01 I02 I08"),
("registry-max", V + "parsers/registry.py", [("""        suitable_parsers = []

        for parser_name, parser in self.parsers.items():
            if parser.can_parse(file_path):
                priority = self.parser_priorities.get(parser_name, 0)
                suitable_parsers.append((priority, parser_name, parser))

        if not suitable_parsers:
            raise ParsingError(f"No parser available for file: {file_path}")

        # Return parser with highest priority
        suitable_parsers.sort(key=lambda x: x[0], reverse=True)
        return suitable_parsers[0][2]
""", """        best, best_priority = None, None

        for name, parser in self.parsers.items():
            if not parser.can_parse(file_path):
                continue
            priority = self.parser_priorities.get(name, 0)
            if best is None or priority > best_priority:
                best, best_priority = parser, priority

        if best is None:
            raise ParsingError(f"No parser available for file: {file_path}")

        return best
""")], "R01 B01"),
("registry-max-builtin", V + "parsers/registry.py", [("""        suitable_parsers.sort(key=lambda x: x[0], reverse=True)
        return suitable_parsers[0][2]
""", """        return max(suitable_parsers, key=lambda x: x[0])[2]
""")], "R01 B01"),
("registry-comp", V + "parsers/registry.py", [("""        suitable_parsers = []

        for parser_name, parser in self.parsers.items():
            if parser.can_parse(file_path):
                priority = self.parser_priorities.get(parser_name, 0)
                suitable_parsers.append((priority, parser_name, parser))
""", """        suitable_parsers = [
            (self.parser_priorities.get(name, 0), name, parser)
            for name, parser in self.parsers.items()
            if parser.can_parse(file_path)
        ]
""")], "R01"),
("pipeline-run-helper", V + "processors/pipeline.py", [("""            processed_data = document_data
            for processor in self.processors:
                processed_data = processor.process(processed_data)

            # Add pipeline metadata
            processed_data["pipeline_metadata"] = {
                "file_path": str(file_path),""", """            processed_data = self._run(document_data)

            # Add pipeline metadata
            processed_data["pipeline_metadata"] = {
                "file_path": str(file_path),"""), ("""    def get_supported_formats""", """    def _run(self, data):
        for processor in self.processors:
            data = processor.process(data)
        return data

    def get_supported_formats""")], "B01"),
("pipeline-batch-helper", V + "processors/pipeline.py", [("""            try:
                result = self.process_document(file_path)
                results.append(result)
            except Exception as e:
                # Log error but continue with other documents
                error_result = {
                    "error": str(e),
                    "file_path": str(file_path),
                    "pipeline_metadata": {
                        "file_path": str(file_path),
                        "processing_failed": True,
                        "error_message": str(e),
                    },
                }
                results.append(error_result)
""", """            results.append(self._process_or_report(file_path))
"""), ("""    def get_supported_formats""", """    def _process_or_report(self, file_path):
        try:
            return self.process_document(file_path)
        except Exception as e:
            message = str(e)
            name = str(file_path)
            return {
                "error": message,
                "file_path": name,
                "pipeline_metadata": {
                    "file_path": name,
                    "processing_failed": True,
                    "error_message": message,
                },
            }

    def get_supported_formats""")], "B01"),
("embedding-lookup", V + "processors/embedding.py", [("""        if self.cache_embeddings:
            cache_key = self._get_cache_key(text)
            if cache_key in self._cache:
                self._cache_hits += 1
                return self._cache[cache_key].copy()
""", """        cache_key = self._get_cache_key(text) if self.cache_embeddings else None
        if cache_key is not None and cache_key in self._cache:
            self._cache_hits += 1
            cached = self._cache[cache_key]
            return cached.copy()
"""), ("""            cache_key = self._get_cache_key(text)
            self._cache[cache_key] = embedding.copy()
""", """            self._cache[cache_key] = embedding.copy()
""")], "E01"),
("embedding-chunks-comp", V + "processors/embedding.py", [("""            chunk_embeddings = []
            for chunk in data["chunks"]:
                if "text" in chunk:
                    chunk_embedding = self._generate_embedding(chunk["text"])
                    chunk_embeddings.append(chunk_embedding)

            result_data["chunk_embeddings"] = chunk_embeddings
""", """            result_data["chunk_embeddings"] = [
                self._generate_embedding(chunk["text"])
                for chunk in data["chunks"]
                if "text" in chunk
            ]
""")], "E01"),
("chunk-make-helper", V + "processors/chunking.py", [("""            chunk_text = text[start:end].strip()
            if chunk_text:
                chunks.append(
                    {
                        "id": chunk_id,
                        "text": chunk_text,
                        "start_pos": start,
                        "end_pos": end,
                        "length": len(chunk_text),
                        "metadata": {
                            "chunk_type": "fixed_size",
                            "strategy": self.strategy,
                        },
                    }
                )
                chunk_id += 1
""", """            chunk = self._make_chunk(len(chunks), text, start, end)
            if chunk is not None:
                chunks.append(chunk)
"""), ("""    def _semantic_chunking(""", """    def _make_chunk(self, number, text, start, end):
        body = text[start:end].strip()
        if not body:
            return None
        return {
            "id": number,
            "text": body,
            "start_pos": start,
            "end_pos": end,
            "length": len(body),
            "metadata": {"chunk_type": "fixed_size", "strategy": self.strategy},
        }

    def _semantic_chunking(""")], "C01 C02 C03 C04"),
("chunk-while-true", V + "processors/chunking.py", [("""        while start < len(text):
            end = min(start + self.chunk_size, len(text))
""", """        total = len(text)
        while True:
            if start >= total:
                break
            end = start + self.chunk_size
            if end > total:
                end = total
""")], "C01 C03"),
("chunk-sliding-while", V + "processors/chunking.py", [("""        for i in range(0, len(text), step_size):
            end = min(i + window_size, len(text))
            chunk_text = text[i:end].strip()

            if len(chunk_text) >= self.min_chunk_size:
                chunks.append(
                    {
                        "id": len(chunks),
                        "text": chunk_text,
                        "start_pos": i,
                        "end_pos": end,
                        "length": len(chunk_text),
                        "metadata": {
                            "chunk_type": "sliding_window",
                            "strategy": self.strategy,
                            "window_position": i,
                        },
                    }
                )
""", """        i = 0
        while i < len(text):
            end = min(i + window_size, len(text))
            chunk_text = text[i:end].strip()
            if len(chunk_text) >= self.min_chunk_size:
                chunk = {"id": len(chunks), "text": chunk_text}
                chunk["start_pos"] = i
                chunk["end_pos"] = end
                chunk["length"] = len(chunk_text)
                chunk["metadata"] = {
                    "chunk_type": "sliding_window",
                    "strategy": self.strategy,
                    "window_position": i,
                }
                chunks.append(chunk)
            i += step_size
""")], "C02 C03"),
("chunk-filter-comp", V + "processors/chunking.py", [("""        filtered_chunks = []

        for chunk in chunks:
            if self.min_chunk_size <= len(chunk["text"]) <= self.max_chunk_size:
                filtered_chunks.append(chunk)

        return filtered_chunks
""", """        lo, hi = self.min_chunk_size, self.max_chunk_size
        return [c for c in chunks if lo <= len(c["text"]) <= hi]
""")], "C03 C01 C02"),
("chunk-semantic-helper", V + "processors/chunking.py", [("""            if current_chunk and len(current_chunk) + len(paragraph) > self.chunk_size:
                if current_chunk:
                    chunks.append(
                        {
                            "id": chunk_id,
                            "text": current_chunk.strip(),
                            "start_pos": current_start,
                            "end_pos": current_start + len(current_chunk),
                            "length": len(current_chunk.strip()),
                            "metadata": {
                                "chunk_type": "semantic",
                                "strategy": self.strategy,
                            },
                        }
                    )
                    chunk_id += 1
""", """            if current_chunk and len(current_chunk) + len(paragraph) > self.chunk_size:
                chunks.append(
                    self._semantic_chunk(chunk_id, current_chunk, current_start)
                )
                chunk_id += 1
"""), ("""            chunks.append(
                {
                    "id": chunk_id,
                    "text": current_chunk.strip(),
                    "start_pos": current_start,
                    "end_pos": current_start + len(current_chunk),
                    "length": len(current_chunk.strip()),
                    "metadata": {"chunk_type": "semantic", "strategy": self.strategy},
                }
            )
""", """            chunks.append(self._semantic_chunk(chunk_id, current_chunk, current_start))
"""), ("""    def _sliding_window_chunking(""", """    def _semantic_chunk(self, number, content, start):
        stripped = content.strip()
        return {
            "id": number,
            "text": stripped,
            "start_pos": start,
            "end_pos": start + len(content),
            "length": len(stripped),
            "metadata": {"chunk_type": "semantic", "strategy": self.strategy},
        }

    def _sliding_window_chunking(""")], "C04 C03"),
("sim-check-helper", V + "utils/similarity.py", [("""    if a.ndim != 1 or b.ndim != 1:
        raise ValueError("Vectors must be 1D")

    if len(a) != len(b):
        raise ValueError("Vectors must have the same length")

    # Compute dot product
    dot_product = np.dot(a, b)
""", """    _check_pair(a, b)

    # Compute dot product
    dot_product = np.dot(a, b)
"""), ("""def cosine_distance(""", """def _check_pair(a, b):
    if a.ndim != 1 or b.ndim != 1:
        raise ValueError("Vectors must be 1D")
    if a.shape != b.shape:
        raise ValueError("Vectors must have the same length")


def cosine_distance(""")], "U02"),
("validate-loop", V + "utils/validation.py", [("""    # Check for duplicates
    if len(ids) != len(set(ids)):
        raise ValidationError("IDs list contains duplicates")
""", """    # Check for duplicates
    seen = set()
    for id in ids:
        if id in seen:
            raise ValidationError("IDs list contains duplicates")
        seen.add(id)
""")], "U01"),
("validate-finite", V + "utils/validation.py", [("""    if np.any(np.isnan(vector)) or np.any(np.isinf(vector)):
""", """    if not np.all(np.isfinite(vector)):
""")], "U01 I06 I07"),
("batch-helper", V + "utils/batch_manager.py", [("""                    self._stats["processed_items"] = int(
                        self._stats.get("processed_items", 0) or 0
                    ) + len(batch_vectors)

                    if show_progress:
                        self._print_progress()

                    if self.progress_callback:
                        self.progress_callback(
                            self._stats["processed_items"], self._stats["total_items"]
                        )

                except""", """                    self._bump("processed_items", len(batch_vectors))
                    self._report(show_progress)

                except"""), ("""    def _print_progress(""", """    def _bump(self, name, amount):
        self._stats[name] = int(self._stats.get(name, 0) or 0) + amount

    def _report(self, show_progress):
        if show_progress:
            self._print_progress()
        if self.progress_callback:
            self.progress_callback(
                self._stats["processed_items"], self._stats["total_items"]
            )

    def _print_progress(""")], "U04"),
("batch-while", V + "utils/batch_manager.py", [("""            for i in range(0, len(vectors), self.batch_size):
                batch_vectors = vectors[i : i + self.batch_size]
                batch_metadata = metadata[i : i + self.batch_size]

                try:
                    batch_ids""", """            n_batches = (len(vectors) + self.batch_size - 1) // self.batch_size
            for b in range(n_batches):
                i = b * self.batch_size
                batch_vectors = vectors[i : i + self.batch_size]
                batch_metadata = metadata[i : i + self.batch_size]

                try:
                    batch_ids""")], "U04"),
("factory-table", V + "factory.py", [("""    if index_type == "flat":
        return FlatIndex(config)
    elif index_type == "hnsw":
        return HNSWIndex(config)
    elif index_type == "ivf":
        return IVFIndex(config)
    elif index_type == "lsh":
        return LSHIndex(config)
    elif index_type == "annoy":
        return AnnoyIndex(config)
    else:
        raise ValueError(f"Unknown index type: {index_type}")
""", """    kinds = {
        "flat": FlatIndex,
        "hnsw": HNSWIndex,
        "ivf": IVFIndex,
        "lsh": LSHIndex,
        "annoy": AnnoyIndex,
    }
    if index_type not in kinds:
        raise ValueError(f"Unknown index type: {index_type}")
    return kinds[index_type](config)
""")], "F01"),
("factory-merge", V + "factory.py", [("""    config = TEMPLATES[template_name].copy()
    config.update(overrides)

    return create_vector_db(**config)""", """    return create_vector_db(**{**TEMPLATES[template_name], **overrides})""")], "F01"),
("tensor-write-helper", V + "persistence/tensor.py", [("""            payload = pickle.dumps(index_data, protocol=pickle.HIGHEST_PROTOCOL)
            with open(file_path, "wb") as f:
                f.write(payload)
""", """            self._dump(index_data, file_path)
"""), ("""    def load_index(""", """    def _dump(self, value, target):
        payload = pickle.dumps(value, protocol=pickle.HIGHEST_PROTOCOL)
        with open(target, "wb") as f:
            f.write(payload)

    def load_index(""")], "P01"),
("incremental-latest", V + "persistence/incremental.py", [("""            checkpoint_files.sort(key=lambda x: int(x.stem.split("_")[1]))
            latest_checkpoint = checkpoint_files[-1]
""", """            latest_checkpoint = max(
                checkpoint_files, key=lambda x: int(x.stem.split("_")[1])
            )
""")], "P02 P03"),
("incremental-due", V + "persistence/incremental.py", [("""            self._operation_count += 1

            # Create checkpoint if needed
            if (
                self._operation_count - self._last_checkpoint
                >= self.checkpoint_interval
            ):
                self._create_checkpoint()
""", """            self._operation_count += 1
            since = self._operation_count - self._last_checkpoint
            if not since < self.checkpoint_interval:
                self._create_checkpoint()
""")], "P02 P03"),
("incremental-log-early", V + "persistence/incremental.py", [("""            log_entry = {
                "timestamp": datetime.now().isoformat(),
                "operation": operation,
                "data": data,
                "operation_id": self._operation_count,
            }

            with open(self.log_file, "a") as f:
                f.write(json.dumps(log_entry, default=str) + "\\n")
""", """            line = json.dumps(
                {
                    "timestamp": datetime.now().isoformat(),
                    "operation": operation,
                    "data": data,
                    "operation_id": self._operation_count,
                },
                default=str,
            )

            with open(self.log_file, "a") as f:
                f.write(f"{line}\\n")
""")], "P02 P03"),
("scalar-round", V + "quantization/scalar.py", [("""            rounded = np.rint(normalized_all)
""", """            rounded = np.round(normalized_all)
"""), ("""            clipped = np.clip(rounded, 0, upper_bound)
""", """            clipped = np.minimum(np.maximum(rounded, 0), upper_bound)
""")], "Q01 Q05"),
("product-helper", V + "quantization/product.py", [("""                centroids_i = self.centroids[i]
                distances = np.sum(
                    (subvectors[:, np.newaxis, :] - centroids_i[np.newaxis, :, :]) ** 2,
                    axis=2,
                )
                closest_centroids = np.argmin(distances, axis=1)

                quantized[:, i] = closest_centroids
""", """                quantized[:, i] = self._nearest(subvectors, self.centroids[i])
"""), ("""    def dequantize(""", """    @staticmethod
    def _nearest(points, centroids):
        delta = points[:, None, :] - centroids[None, :, :]
        return np.argmin((delta**2).sum(axis=2), axis=1)

    def dequantize(""")], "Q02 Q05"),
("product-distance-gen", V + "quantization/product.py", [("""                subvector_distance: float = float(
                    np.sum((query_subvector - centroid) ** 2)
                )
                distance += subvector_distance
""", """                delta = query_subvector - centroid
                distance += float(np.dot(delta, delta))
""")], "Q02 Q05"),
("saq-adjust-helper", V + "quantization/saq.py", [("""                new_error = np.mean(
                    (vectors_pca[:, start:end] - new_reconstructed_segment) ** 2
                )
                old_segment_error = np.mean(
                    (vectors_pca[:, start:end] - reconstructed[:, start:end]) ** 2
                )
""", """                target = vectors_pca[:, start:end]
                new_error = self._error(target, new_reconstructed_segment)
                old_segment_error = self._error(target, reconstructed[:, start:end])
"""), ("""                old_error = np.mean((vectors_pca - reconstructed) ** 2)

""", ""), ("""    def _dequantize_segments(
        self,
        codes""", """    @staticmethod
    def _error(target, approximation):
        return np.mean((target - approximation) ** 2)

    def _dequantize_segments(
        self,
        codes""")], "Q03 Q04 Q05"),
("saq-bits-while", V + "quantization/saq.py", [("""        for i, variance in enumerate(segment_variances):
            if i == len(segment_variances) - 1:
                bits = max(1, remaining_bits)
            else:
                # Leave at least one bit for each of the remaining segments
                spare_bits = remaining_bits - (len(segment_variances) - 1 - i)
                bits = int(self.total_bits * (variance / total_variance))
                bits = max(1, min(bits, spare_bits))
                remaining_bits -= bits
            self.segment_bits.append(bits)
""", """        last = len(segment_variances) - 1
        for i in range(last + 1):
            if i < last:
                # Leave at least one bit for each of the remaining segments
                share = segment_variances[i] / total_variance
                bits = min(int(self.total_bits * share), remaining_bits - (last - i))
                bits = max(1, bits)
                remaining_bits = remaining_bits - bits
            else:
                bits = max(1, remaining_bits)
            self.segment_bits.append(bits)
""")], "Q03 Q04 Q05"),
("saq-boundaries-append", V + "quantization/saq.py", [("""            self.segment_boundaries.insert(0, (start, current_pos))
            current_pos = start
""", """            self.segment_boundaries.append((start, current_pos))
            current_pos = start
        self.segment_boundaries.reverse()
""")], "Q03 Q04 Q05"),
("memory-copy-helper", V + "storage/memory.py", [("""                if metadata is not None:
                    self.metadata[id] = metadata.copy()
                else:
                    self.metadata.pop(id, None)
""", """                self._put_metadata(id, metadata)
"""), ("""    def delete_vector(""", """    def _put_metadata(self, id, metadata):
        if metadata is None:
            if id in self.metadata:
                del self.metadata[id]
            return
        self.metadata[id] = dict(metadata)

    def delete_vector(""")], "S01 S02 S03 S05"),
]


def main(only):
    for name, f, reps, props in R:
        if only and name not in only:
            continue
        d = tempfile.mkdtemp()
        os.chmod(d, 0o755)
        shutil.copytree("/repo/src", d + "/src")
        p = os.path.join(d, f)
        b = open(p, "rb").read()
        ok = True
        for old, new in reps:
            o, n = old.encode(), new.encode()
            if o not in b:
                o, n = o.replace(b"\n", b"\r\n"), n.replace(b"\n", b"\r\n")
            if b.count(o) < 1:
                print(name, "PATTERN NOT FOUND", old[:80])
                ok = False
            b = b.replace(o, n, 1)
        open(p, "wb").write(b)
        if ok:
            env = dict(os.environ, VALORI_SRC=d + "/src/valori", VALORI_SRC_DIR=d + "/src", VERIF_SEED="1", VERIF_TIER="quick", PYVC_HARNESS_S=os.environ.get("PYVC_HARNESS_S", "6"))
            for pr in props.split():
                t0 = time.time()
                if os.environ.get("UNITS"):     # only the proof of these units, verbose
                    r = subprocess.run(["python3-vt", "-m", "pyvc.verify", os.environ["UNITS"]], cwd=HERE, env=dict(env, PROP=pr), capture_output=True, text=True)
                    print(name, pr, (r.stdout + r.stderr)[-3000:], flush=True)
                    continue
                r = subprocess.run(["python3-vt", "check.py", pr], cwd=HERE, env=env, capture_output=True, text=True, timeout=1800)
                bad = [l[:150] for l in r.stdout.split("\n") if re.search("VIOLATION|UNDECIDED|FAILED|FAILING", l)]
                print("%-24s %s rc=%d %ds %s" % (name, pr, r.returncode, time.time() - t0, "" if r.returncode == 0 and not bad else " ".join(bad[:3]) or r.stderr[-300:]), flush=True)
        shutil.rmtree(d)


main(sys.argv[1:])
