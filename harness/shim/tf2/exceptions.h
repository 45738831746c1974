#pragma once
#include <stdexcept>
#include <string>
namespace tf2
{
class TransformException : public std::runtime_error
{
public:
  using std::runtime_error::runtime_error;
};
class LookupException : public TransformException
{
public:
  using TransformException::TransformException;
};
}  // namespace tf2
